// operations on values with failing allocations
//   S n V1..Vn op                 every allocation of the operation fails in turn, on fresh values each time
//       -> {"f":[[result,store,result of a repetition,store],..] (distinct),"n":number of faults,"ok":[result,store],"leak":n}
//   H n V1..Vn m (kind a b c d)*  random operations, each with its (d mod 8)th allocation failing (7: none)
//       -> {"h":[[op,struck,result,store after],..],"leak":n}
#define COUNT_ALLOC
#include "common.hpp"
#include <configor/configor.hpp>
#include <list>
#include "variants.hpp"
#include "store_ops.hpp"

// runs op with the k-th allocation failing; whether it was reached
static bool struck(Op& op, Res& r, long k)
{
    AllocState& s = AS();
    s.count = 0;
    s.failed = false;
    s.fail = k;
    run(op, r);
    s.fail = -1;
    return s.failed;
}
static void release()
{
    for (auto r : roots) delete r;
    std::vector<V*>().swap(roots);
}

static void every(const std::string& line)
{
    Out o, e;
    o.s.reserve(1 << 20);
    e.s.reserve(1 << 16);
    long leak = 0, n = 0;
    o.raw("{\"f\":[");
    std::vector<std::string> seen;
    seen.reserve(64);
    for (long k = 0;; ++k)
    {
        long live0 = AS().live;
        bool hit;
        e.s.clear();
        {
            In in(line);
            in.word();
            for (auto m = in.num(); m > 0; --m) roots.push_back(new V(build<V>(in)));
            Op op;
            read_op(in, op);
            Res r;
            hit = struck(op, r, k);
            e.raw("[");
            r.put(e);
            e.raw(",");
            put_store(e);
            if (hit)
            {
                Res again;
                e.raw(",");
                if (r.kind == 'x' && !std::strcmp(r.x, "alloc"))
                {
                    run(op, again);
                    again.put(e);
                    e.raw(",");
                    put_store(e);
                }
                else e.raw("0,0");
            }
            e.raw("]");
            release();
        }
        leak += AS().live - live0;
        if (!hit) break;
        ++n;
        bool known = false;
        for (auto& s : seen) if (s == e.s) known = true;
        if (known) continue;
        seen.push_back(e.s);
        if (seen.size() > 1) o.raw(",");
        o.raw(e.s);
    }
    o.raw("],\"n\":").num(n).raw(",\"ok\":").raw(e.s).raw(",\"leak\":").num(leak);
    o.raw("}").flush();
}

static void history(const std::string& line)
{
    In in(line);
    in.word();
    Out o;
    o.s.reserve(1 << 20);
    std::vector<V*>().swap(roots);
    long live0 = AS().live;
    {
        for (auto n = in.num(); n > 0; --n) roots.push_back(new V(build<V>(in)));
        auto m = in.num();
        o.raw("{\"h\":[");
        bool first = true;
        for (; m > 0; --m)
        {
            Op   op;
            bool use = random_op(in, op);
            long k = static_cast<long>(in.num() % 8);
            if (!use) continue;
            if (!first) o.raw(",");
            first = false;
            o.raw("[");
            put_op(o, op);
            Res  r;
            bool hit = struck(op, r, k == 7 ? -1 : k);
            o.raw(",").num(hit).raw(",");
            r.put(o);
            o.raw(",");
            put_store(o);
            o.raw("]");
        }
        release();
    }
    o.raw("],\"leak\":").num(AS().live - live0);
    o.raw("}").flush();
}

int main()
{
    std::string line;
    while (next_case(line)) line[0] == 'S' ? every(line) : history(line);
}
