#include "zoo.h"
namespace sim { using namespace std;
static RegField<map<string, int>> a1("map<string,int>"); static RegField<map<string, vector<string>>> a2("map<string,vector<string>>");
static RegField<multimap<int, string>> a3("multimap<int,string>", 2); static RegField<unordered_map<string, double>> a4("unordered_map<string,double>", 2);
static RegField<map<u16string, u32string>> a5("map<u16,u32>", 2); static RegField<map<int, map<int, string>>> a6("map<int,map>", 2);
static RegField<int[4]> b1("int[4]", 2); static RegField<string[3]> b2("string[3]", 2); static RegField<int[2][3]> b3("int[2][3]", 2); static RegField<vector<int>[2]> b4("vector<int>[2]", 2);
static RegField<pair<int, string>> c1("pair<int,string>"); static RegField<pair<vector<int>, pair<string, double>>> c2("pair<vector,pair>", 2);
static RegField<tuple<int, string, vector<double>>> c3("tuple<int,string,vector>"); static RegField<tuple<bool>> c4("tuple<bool>", 1);
static RegField<tuple<string, tuple<int, int>, pair<int, int>, u16string>> c5("tuple<mixed>", 2);
}
