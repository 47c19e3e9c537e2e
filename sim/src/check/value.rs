//! What a binding or the library answered, in one form.
#[derive(Clone, Debug)]
pub enum V {
    I(i64),
    /// bits; every NaN is the same
    F(u64),
    S(String),
    L(Vec<V>),
    Nothing,
    Err,
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::I(a), V::I(b)) => a == b,
            // generic library code is compiled once on each side, and x.powf(0.5) is rounded as
            // the optimiser pleases
            (V::F(a), V::F(b)) => a == b || {
                let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                (a - b).abs() <= 1e-10 * a.abs().max(1.0)
            },
            (V::S(a), V::S(b)) => a == b,
            (V::L(a), V::L(b)) => a == b,
            (V::Nothing, V::Nothing) | (V::Err, V::Err) => true,
            _ => false,
        }
    }
}
pub trait To {
    fn to(&self) -> V;
}
macro_rules! int { ($($t:ty)*) => { $(impl To for $t { fn to(&self) -> V { V::I(*self as i64) } })* } }
int!(u16 u32 i32 usize i64 bool);
impl To for u8 {
    fn to(&self) -> V {
        V::I(*self as i64)
    }
}
impl To for f64 {
    fn to(&self) -> V {
        V::F(if self.is_nan() { 1 } else { self.to_bits() })
    }
}
impl To for String {
    fn to(&self) -> V {
        V::S(self.clone())
    }
}
impl To for () {
    fn to(&self) -> V {
        V::Nothing
    }
}
impl<T: To> To for Vec<T> {
    fn to(&self) -> V {
        V::L(self.iter().map(|x| x.to()).collect())
    }
}
impl<T: To, const N: usize> To for [T; N] {
    fn to(&self) -> V {
        V::L(self.iter().map(|x| x.to()).collect())
    }
}
impl<T: To, E> To for Result<T, E> {
    fn to(&self) -> V {
        match self {
            Ok(x) => x.to(),
            Err(_) => V::Err,
        }
    }
}
macro_rules! tup { ($($n:ident $i:tt),*) => { impl<$($n: To),*> To for ($($n,)*) { fn to(&self) -> V { V::L(vec![$(self.$i.to()),*]) } } } }
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);

pub fn brief(v: &V) -> String {
    let mut s = match v {
        V::F(b) => format!("{}", f64::from_bits(*b)),
        V::I(i) => format!("{i}"),
        V::L(l) => format!("[{}]", l.iter().take(40).map(brief).collect::<Vec<_>>().join(",")),
        x => format!("{x:?}"),
    };
    if s.len() > 300 {
        let mut k = 300;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}
