//! spec/near.qnt: when two numbers count as equal, or one as zero.
use crate::ctx::*;
use crate::itf::*;
use crate::tvm::real;
use financelib::*;
use serde_json::Value;

pub fn replay(trace: &Value, cx: &mut Ctx) -> Res {
    for (i, s) in list(field(trace, "states")).iter().enumerate() {
        cx.state = i;
        cx.states += 1;
        let (x, y) = (real(field(s, "x")), real(field(s, "y")));
        let (same, nought, open) = (boolean(field(s, "same")), boolean(field(s, "nought")), boolean(field(s, "open")));
        cx.op(string(field(s, "op")), &format!("{x:e} {y:e}"));
        let near = |a: f64, b: f64| (format!("approx({a:e}, {b:e})"), approx(a, b));
        let zero = |a: f64| (format!("is_zero({a:e})"), is_zero(a));
        for (what, got) in [near(x, x), near(-x, -x), near(y, y)] {
            cx.eq(&what, got, true)?;
        }
        let (w, got) = near(x, y);
        for (what, other) in [near(y, x), near(-x, -y)] {
            cx.eq(&format!("{w} and {what} agree"), other, got)?;
        }
        if !open {
            cx.eq(&w, got, same)?;
            for (what, got) in [zero(x), zero(-x)] {
                cx.eq(&what, got, nought)?;
            }
        }
    }
    Ok(())
}
