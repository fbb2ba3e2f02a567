//! C18: panics while formatting
use crate::nd;
use crate::shapes::Desc;
use crate::spec::*;
use crate::types::*;
use core::fmt;
use tagged_box::TaggableInner;

shapes! { #[derive(Clone)] Fm, FmE, crate::shapes::Drp, Z }
impl fmt::Debug for FmE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { nd::panic() } }
impl fmt::Display for FmE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { nd::panic() } }
struct Null;
impl fmt::Write for Null { fn write_str(&mut self, _: &str) -> fmt::Result { Ok(()) } }

harnesses! {
    fn c18_format() {
        log::reset();
        let (k, debug) = (Desc::nd(), nd::bool_());
        let b = FmE::make(&k).into_tagged_box();
        let bits = word(&b);
        let p = nd::attempt(|| {
            // the formatter itself is never looked at
            let mut n = Null;
            let mut f = fmt::Formatter::new(&mut n, fmt::FormattingOptions::new());
            if debug { let _ = fmt::Debug::fmt(&b, &mut f); } else { let _ = fmt::Display::fmt(&b, &mut f); }
        });
        check!(p, "the panic reaches the caller");
        check!(log::drops() == 0 && word(&b) == bits, "a panicking fmt drops nothing and leaves the box alone");
        let o = FmE::from_tagged_box(b);
        check!(o.desc() == k, "the value is unchanged");
        drop(o);
        check!(log::drops() == k.parts() && log::drop_sum() == k.sum(), "its owner drops it once");
        reach!("end");
    }
}
