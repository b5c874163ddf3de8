//## The either crate, as far as it is used, likewise.
@item mod dep_either
use crate::sx::fmt;
@item enum dep_either::Either
@item impl dep_either::<Display for Either>
    open spec fn disp(&self) -> crate::B { match *self { Either::Left(l) => l.disp(), Either::Right(r) => r.disp() } }
@fn dep_either::<Display for Either>::fmt : C08
