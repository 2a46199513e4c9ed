#include "zoo.h"
namespace sim { using namespace std;
static RegField<Srl::Lib::HTable<string, int>> a1("HTable<int>", 3); static RegField<Srl::Lib::HTable<string, string>> a2("HTable<string>", 2); static RegField<Srl::Lib::HTable<string, vector<string>>> a3("HTable<vector<string>>", 3);
static RegField<int*> b1("int*", 2); static RegField<string*> b2("string*", 2); static RegField<vector<string>*> b3("vector<string>*", 2);
static RegField<unique_ptr<string>> b4("unique<string>", 2); static RegField<unique_ptr<vector<int>>> b5("unique<vector<int>>", 2); static RegField<unique_ptr<double>> b6("unique<double>", 2);
static RegField<vector<unique_ptr<vector<string>>>> b7("vector<unique<vector>>", 2);
static RegField<shared_ptr<string>> c1("shared<string>", 4); static RegField<shared_ptr<vector<int>>> c2("shared<vector<int>>", 3); static RegField<vector<shared_ptr<string>>> c3("vector<shared<string>>", 4);
static RegField<Watched<string>> c4("Watched<string>", 3); static RegField<Watched<vector<int>>> c5("Watched<vector<int>>", 2);
static RegField<map<string, shared_ptr<string>>> c6("map<string,shared<string>>", 2); static RegField<shared_ptr<shared_ptr<string>>> c7("shared<shared<string>>", 1);
}
