#include "zoo.h"
namespace sim { using namespace std;
static RegField<Blob<uint8_t>> a1("Blob<u8>", 5); static RegField<Blob<double>> a2("Blob<f64>", 2); static RegField<Blob<uint16_t>> a3("Blob<u16>", 2);
static RegField<Raw> a4("Raw", 4); static RegField<ByteS> a5("Bytes", 4);
static RegField<vector<int>> b1("vector<int>"); static RegField<vector<string>> b2("vector<string>", 5); static RegField<list<double>> b3("list<double>", 2);
static RegField<deque<int64_t>> b4("deque<i64>", 2); static RegField<vector<vector<int>>> b5("vector<vector<int>>"); static RegField<list<vector<string>>> b6("list<vector<string>>", 2);
static RegField<set<string>> b7("set<string>"); static RegField<multiset<int>> b8("multiset<int>", 2); static RegField<multiset<string>> b9("multiset<string>", 2);
}
