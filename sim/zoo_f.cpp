#include "zoo.h"
namespace sim { using namespace std;
static RegField<Dyn<0>> a1("Dyn0", 8, 1); static RegField<DynS<0>> a2("DynS0", 5, 1); static RegField<vector<Dyn<0>>> a3("vector<Dyn0>", 6, 1);
static RegField<unique_ptr<Dyn<0>>> a4("unique<Dyn0>", 3, 1); static RegField<deque<Dyn<0>>> a5("deque<Dyn0>", 3, 1); static RegField<shared_ptr<Dyn<0>>> a6("shared<Dyn0>", 4, 1);
static RegField<list<DynS<0>>> a7("list<DynS0>", 2, 1); static RegField<Dyn<0>*> a8("Dyn0*", 2, 1); static RegField<Dyn<0>[2]> a9("Dyn0[2]", 2, 1);
}
