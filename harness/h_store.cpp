// histories of value operations
//   S n V1..Vn  m op1..opm        explicit operations; a location is  r k step1..stepk, a step  i <n> | k <len cps..>
//   H n V1..Vn  m (kind a b c d)* operations chosen from random numbers, resolved against the actual values and logged
// prints {"h":[[op,result,store after]..],"leak":n}
#define COUNT_ALLOC
#include "common.hpp"
#include <configor/configor.hpp>
#include <list>
#include "variants.hpp"

#include "store_ops.hpp"

static void one(In& in, bool random)
{
    Out o;
    o.s.reserve(1 << 20);
    std::vector<V*>().swap(roots);
    long live0 = AS().live, outside = 0;
    {
        auto n = in.num();
        for (; n > 0; --n) roots.push_back(new V(build<V>(in)));
        auto m = in.num();
        o.raw("{\"h\":[");
        bool first = true;
        for (; m > 0; --m)
        {
            Op op;
            if (!random) read_op(in, op);
            else if (!random_op(in, op)) continue;
            Res r;
            if (!first) o.raw(",");
            first = false;
            o.raw("[");
            put_op(o, op);
            o.raw(",");
            long before = AS().live;
            run(op, r);
#if VARIANT == 4
            outside += AS().live != before;  // what a value keeps comes from its own allocator
#endif
            (void)before;
            r.put(o);
            o.raw(",");
            put_store(o);
            o.raw("]");
        }
        for (auto r : roots) delete r;
        std::vector<V*>().swap(roots);
    }
    long leak = AS().live - live0 + own_live() + outside;
    o.raw("],\"leak\":").num(leak);
    o.raw("}").flush();
}

int main()
{
    std::string line;
    while (next_case(line))
    {
        In in(line);
        bool random = in.word() == "H";
        one(in, random);
    }
}
