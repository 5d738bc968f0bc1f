// The step contracts of hc/numbers.c, taken together: what is printed are the digits of the value,
// without leading zeros, and reading them gives the value back.
use vstd::prelude::*;
verus! {
/// The value of digits, the last one first.
spec fn val(d: Seq<int>, r: int) -> int decreases d.len() { if d.len() == 0 { 0 } else { d[0] + r * val(d.drop_first(), r) } }
/// The contract of *_to_string: h[k] is what remains after k digits, d[k] its last digit.
spec fn printed(h: Seq<int>, d: Seq<int>, r: int) -> bool {
    &&& r >= 2 && h.len() == d.len() + 1 && h[h.len() - 1] == 0
    &&& forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] >= 0 && d[k] < r && h[k] == h[k + 1] * r + d[k] && h[k] != 0
}
/// The contract of string_to_*: p[k] is the value after k digits (the first one first).
spec fn read(p: Seq<int>, d: Seq<int>, r: int) -> bool {
    &&& p.len() == d.len() + 1 && p[0] == 0
    &&& forall|k: int| 0 <= k < d.len() ==> #[trigger] p[k + 1] == p[k] * r + d[d.len() - 1 - k]
}
proof fn printed_is_value(h: Seq<int>, d: Seq<int>, r: int)
    requires printed(h, d, r)
    ensures val(d, r) == h[0], d.len() > 0 ==> d[d.len() - 1] != 0
    decreases d.len()
{
    if d.len() > 0 {
        let (h1, d1) = (h.drop_first(), d.drop_first());
        assert forall|k: int| 0 <= k < d1.len() implies #[trigger] d1[k] >= 0 && d1[k] < r && h1[k] == h1[k + 1] * r + d1[k] && h1[k] != 0 by { let x = d[k + 1]; }
        assert(h1[h1.len() - 1] == h[h.len() - 1]);
        printed_is_value(h1, d1, r);
        let x = d[0];
        assert(h[1] * r == r * h[1]) by (nonlinear_arith);
        if d.len() == 1 { assert(h[1] * r == 0) by (nonlinear_arith) requires h[1] == 0; } else { assert(d[d.len() - 1] == d1[d1.len() - 1]); }
    }
}
proof fn reading_a_print_gives_it_back(h: Seq<int>, d: Seq<int>, p: Seq<int>, r: int, k: int)
    requires printed(h, d, r), read(p, d, r), 0 <= k <= d.len()
    ensures p[k] == h[d.len() - k]
    decreases k
{
    if k > 0 {
        reading_a_print_gives_it_back(h, d, p, r, k - 1);
        let x = p[(k - 1) + 1];
        let y = d[d.len() - k];
        assert(d.len() - 1 - (k - 1) == d.len() - k);
    }
}
proof fn round_trip(h: Seq<int>, d: Seq<int>, p: Seq<int>, r: int)
    requires printed(h, d, r), read(p, d, r)
    ensures p[d.len() as int] == h[0]
{
    reading_a_print_gives_it_back(h, d, p, r, d.len() as int);
}
}
fn main() {}
