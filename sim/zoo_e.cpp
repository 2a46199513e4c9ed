#include "zoo.h"
namespace sim { using namespace std;
static RegField<Base*> a1("Base*", 3); static RegField<unique_ptr<Base>> a2("unique<Base>", 4); static RegField<vector<unique_ptr<Base>>> a3("vector<unique<Base>>", 4);
static RegField<shared_ptr<Base>> a4("shared<Base>", 4); static RegField<map<string, shared_ptr<Base>>> a5("map<string,shared<Base>>", 2); static RegField<vector<shared_ptr<Base>>> a6("vector<shared<Base>>", 2);
static RegField<Watched<Base>> a7("Watched<Base>", 2);
static RegField<Rec> b1("Rec", 4); static RegField<vector<Rec>> b2("vector<Rec>", 2); static RegField<unique_ptr<Rec>> b3("unique<Rec>", 2); static RegField<Rec*> b4("Rec*", 2); static RegField<shared_ptr<Rec>> b5("shared<Rec>", 3);
static RegField<map<string, Rec>> b6("map<string,Rec>", 2);
}
