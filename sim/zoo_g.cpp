#include "zoo.h"
namespace sim { using namespace std;
static RegField<pair<string, Dyn<0>>> b1("pair<string,Dyn0>", 2, 1); static RegField<Srl::Lib::HTable<string, Dyn<0>>> b2("HTable<Dyn0>", 3, 1); static RegField<Watched<Dyn<0>>> b3("Watched<Dyn0>", 2, 1);
static RegField<tuple<Dyn<0>, int, Dyn<0>>> b4("tuple<Dyn0,int,Dyn0>", 2, 1);
static RegField<Dyn<1>> c1("Dyn1", 10, 2); static RegField<DynS<1>> c2("DynS1", 4, 2); static RegField<vector<Dyn<1>>> c3("vector<Dyn1>", 4, 2);
static RegField<vector<shared_ptr<Dyn<0>>>> c4("vector<shared<Dyn0>>", 3, 1); static RegField<vector<unique_ptr<DynS<1>>>> c5("vector<unique<DynS1>>", 2, 2);
}
