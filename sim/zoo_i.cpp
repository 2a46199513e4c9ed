#include "zoo.h"
namespace sim { using namespace std;
static RegField<map<pair<int, int>, string>> a3("map<pair,string>", 1);
static RegField<vector<tuple<int, string>>> a5("vector<tuple>", 1); static RegField<list<bool>> a6("list<bool>", 1);
static RegField<vector<u16string>> b1("vector<u16string>", 1); static RegField<list<u32string>> b2("list<u32string>", 1); static RegField<vector<float>> b3("vector<float>", 1); static RegField<deque<uint8_t>> b4("deque<u8>", 1);
static RegField<shared_ptr<unique_ptr<string>>> c3("shared<unique<string>>", 1);
static RegField<pair<shared_ptr<string>, shared_ptr<string>>> c4("pair<shared,shared>", 1); static RegField<tuple<unique_ptr<string>, string*>> c5("tuple<ptrs>", 1);
static RegField<vector<vector<vector<string>>>> c6("vector<vector<vector>>", 1); static RegField<map<int64_t, set<string>>> c7("map<i64,set>", 1); static RegField<unordered_multimap<int, int>> c8("unordered_multimap", 1);
static RegField<vector<Srl::Lib::HTable<string, int>>> c9("vector<HTable>", 1);
}
