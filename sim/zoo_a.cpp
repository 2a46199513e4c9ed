#include "zoo.h"
namespace sim { using namespace std;
static RegField<bool> a1("bool"); static RegField<int8_t> a2("i8", 2); static RegField<uint8_t> a3("u8", 2);
static RegField<int16_t> a4("i16", 2); static RegField<uint16_t> a5("u16", 2); static RegField<int32_t> a6("i32");
static RegField<uint32_t> a7("u32", 2); static RegField<int64_t> a8("i64"); static RegField<uint64_t> a9("u64");
static RegField<float> b1("f32"); static RegField<double> b2("f64"); static RegField<long double> b3("ldbl", 1);
static RegField<char> b4("char", 1); static RegField<char16_t> b5("char16", 1); static RegField<char32_t> b6("char32", 1);
static RegField<string> b7("string", 14); static RegField<u16string> b8("u16string", 4); static RegField<u32string> b9("u32string", 4); static RegField<wstring> c1("wstring", 2);
static RegField<char[1]> c2("char[1]", 1); static RegField<char[8]> c3("char[8]", 2); static RegField<char[300]> c4("char[300]", 1);
static RegField<char16_t[10]> c5("char16[10]", 2); static RegField<char32_t[10]> c6("char32[10]", 2);
}
