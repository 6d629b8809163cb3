//! A field type with the same interface as the real one, whose values are either
//! concrete elements of the real field (computed with the real code) or symbolic.
#[macro_export]
macro_rules! sym_field {
    ($name:ident, $real:ty, $realctor:expr, $arena:ident) => {
        std::thread_local! {
            pub static $arena: core::cell::RefCell<$crate::symcore::Arena<$real>> =
                core::cell::RefCell::new($crate::symcore::Arena::new());
        }
        #[derive(Clone, Copy)]
        /// Concrete: the real limbs. Symbolic: the non-canonical pattern
        /// [MAX - h, MAX, MAX, MAX] with h = polynomial id + 1.
        pub struct $name(pub(crate) [u64; 4]);
        impl $name {
            #[inline]
            fn h(&self) -> u32 {
                if self.0[1] == u64::MAX
                    && self.0[2] == u64::MAX
                    && self.0[3] == u64::MAX
                    && self.0[0] > u64::MAX - 0xffff_ffff
                {
                    (u64::MAX - self.0[0]) as u32
                } else {
                    0
                }
            }
            #[inline]
            fn c(&self) -> $real {
                $realctor(self.0)
            }
            const fn mk(c: $real) -> $name {
                $name(c.0)
            }
            fn mks(id: u32) -> $name {
                $name([u64::MAX - (id as u64 + 1), u64::MAX, u64::MAX, u64::MAX])
            }
            pub(crate) fn montgomery_reduce(r: &[u64; 8]) -> $name {
                let v = $name([r[0], r[1], r[2], r[3]]);
                if v.h() != 0 {
                    return $name::mk(<$real>::montgomery_reduce(&[
                        v.sym_concretize().0[0], v.sym_concretize().0[1],
                        v.sym_concretize().0[2], v.sym_concretize().0[3], 0, 0, 0, 0]));
                }
                $name::mk(<$real>::montgomery_reduce(r))
            }
            pub const fn zero() -> $name {
                $name::mk(<$real>::zero())
            }
            pub const fn one() -> $name {
                $name::mk(<$real>::one())
            }
            pub const fn from_raw(v: [u64; 4]) -> $name {
                $name::mk(<$real>::from_raw(v))
            }
            pub fn from_bytes(bytes: &[u8; 32]) -> CtOption<$name> {
                <Self as ff::PrimeField>::from_repr(*bytes)
            }
            pub fn to_bytes(&self) -> [u8; 32] {
                <Self as ff::PrimeField>::to_repr(self)
            }
            pub const fn lift(c: $real) -> $name {
                $name::mk(c)
            }
            pub fn concrete(&self) -> Option<$real> {
                let s = self.resolved();
                if s.h() == 0 {
                    Some(s.c())
                } else {
                    None
                }
            }
            pub fn sym_reset() {
                $arena.with(|a| a.borrow_mut().reset())
            }
            pub fn sym_opaque(b: bool) {
                $arena.with(|a| a.borrow_mut().opaque = b)
            }
            pub fn sym_expand_all(b: bool) {
                $arena.with(|a| a.borrow_mut().expand_all = b)
            }
            pub fn sym_var(name: &str, bound: Option<(i64, i64)>, challenge: bool) -> $name {
                $arena.with(|a| {
                    let id = a.borrow_mut().new_var(name, bound, challenge);
                    $name::mks(id)
                })
            }
            fn wrap(a: &mut $crate::symcore::Arena<$real>, p: $crate::symcore::Poly<$real>) -> $name {
                match a.as_const(&p) {
                    Some(c) => $name::mk(c),
                    None => {
                        let id = a.intern(p);
                        $name::mks(id)
                    }
                }
            }
            fn p(&self, a: &mut $crate::symcore::Arena<$real>) -> $crate::symcore::Poly<$real> {
                if self.h() == 0 {
                    a.constant(self.c())
                } else {
                    let q = a.poly(self.h() - 1).clone();
                    a.resolve(&q)
                }
            }
            fn resolved(&self) -> $name {
                if self.h() == 0 {
                    return *self;
                }
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = self.p(a);
                    Self::wrap(a, p)
                })
            }
            pub fn sym_show(&self) -> alloc::string::String {
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = self.p(a);
                    a.show(&p)
                })
            }
            /// decide self == 0, forking if both are possible
            pub fn decide_zero(&self) -> bool {
                let s = self.resolved();
                if s.h() == 0 {
                    return bool::from(s.c().is_zero());
                }
                let (t, f, q) = $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = s.p(a);
                    a.zero_query(&p)
                });
                if t == "true" {
                    return true;
                }
                if t == "false" {
                    return false;
                }
                if $arena.with(|a| a.borrow_mut().surely_nonzero(&q)) {
                    return false;
                }
                let b = $crate::symcore::branch(&t, &f);
                let ok = $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    if !a.has_challenge(&q) {
                        a.note(&q, b);
                    }
                    if b {
                        a.learn_zero(&q);
                        return a.refresh();
                    }
                    true
                });
                if !ok {
                    $crate::symcore::abandon();
                }
                b
            }
            /// restrict this path to self != 0 / self == 0
            pub fn assume_zero(&self, zero: bool) {
                let s = self.resolved();
                let (t, f, q) = $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = s.p(a);
                    a.zero_query(&p)
                });
                if (if zero { &t } else { &f }) == "false" {
                    $crate::symcore::abandon();
                }
                if t == "true" || t == "false" {
                    return;
                }
                $crate::symcore::assume(if zero { &t } else { &f });
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    a.note(&q, zero);
                    if zero {
                        a.learn_zero(&q);
                    }
                });
            }
            /// is self == 0 an identity on this path (no solver)?
            pub fn identically_zero(&self) -> bool {
                let s = self.resolved();
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = s.p(a);
                    a.normal(&p).is_empty()
                })
            }
            pub fn differ_query(l: &$name, r: &$name) -> (alloc::vec::Vec<alloc::string::String>, alloc::string::String) {
                let (l, r) = (l.resolved(), r.resolved());
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let (x, y) = (l.p(a), r.p(a));
                    a.differ_query(&x, &y)
                })
            }
            pub fn opaque_query(l: &$name, r: &$name) -> (alloc::vec::Vec<alloc::string::String>, alloc::string::String, bool) {
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let (x, y) = (l.p(a), r.p(a));
                    a.opaque_query(&x, &y)
                })
            }
            /// rewrite rule: the (single) monomial of lhs may be replaced by rhs
            pub fn sym_rule(lhs: &$name, rhs: &$name) {
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let l = lhs.p(a);
                    let r = rhs.p(a);
                    let m = a.lead_mono(&l);
                    a.rules.push((m, r));
                })
            }
            /// concrete values of all variables on this path
            pub fn sym_witness(seed: u64) -> Option<alloc::vec::Vec<(alloc::string::String, alloc::string::String)>> {
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    a.witness(seed).map(|v| v.into_iter().map(|(n, x)| (n, $crate::symcore::dec(&x))).collect())
                })
            }
            pub fn sym_inject(&self, val: &dyn Fn(&str) -> $real) -> $real {
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = self.p(a);
                    a.eval(&p, val)
                })
            }
            /// assertion self == 0 on this path; Some(model) is a counterexample.
            /// A nonzero challenge polynomial is a counterexample for generic challenges.
            pub fn refute_zero(&self, what: &str) -> Option<$crate::symcore::Model> {
                let s = self.resolved();
                if s.h() == 0 && bool::from(s.c().is_zero()) {
                    $crate::symcore::with(|e| {
                        e.stats.asserts += 1;
                        e.identities += 1
                    });
                    return None;
                }
                let (_, f, _) = $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = s.p(a);
                    a.zero_query(&p)
                });
                $crate::symcore::refute(&f, what)
            }
            pub fn refute_eq(&self, o: &$name, what: &str) -> Option<$crate::symcore::Model> {
                (*self - *o).refute_zero(what)
            }
            /// assertion: canonical integer of self is within lo..=hi
            pub fn refute_range(&self, lo: i64, hi: i64, what: &str) -> Option<$crate::symcore::Model> {
                let t = self.sym_term();
                $crate::symcore::refute(
                    &alloc::format!("(not (and (<= {} {}) (<= {} {})))", lo, t, t, hi),
                    what,
                )
            }
            pub fn sym_term(&self) -> alloc::string::String {
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = self.p(a);
                    a.int_term(&p).0
                })
            }
            /// canonical integer (forks over feasible values)
            pub fn sym_concretize(&self) -> $real {
                let s = self.resolved();
                if s.h() == 0 {
                    return s.c();
                }
                let t = s.sym_term();
                let v = $crate::symcore::concretize(&t);
                let r: $real = $crate::symcore::from_dec(&v);
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let p = s.p(a);
                    let c = a.constant(r);
                    let d = a.add(&p, &c, -<$real>::one());
                    a.learn_zero(&d);
                });
                r
            }
            pub fn add(&self, o: &$name) -> $name {
                if self.h() == 0 && o.h() == 0 {
                    return $name::mk(self.c() + o.c());
                }
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let (x, y) = (self.p(a), o.p(a));
                    let r = a.add(&x, &y, <$real>::one());
                    Self::wrap(a, r)
                })
            }
            pub fn sub(&self, o: &$name) -> $name {
                if self.h() == 0 && o.h() == 0 {
                    return $name::mk(self.c() - o.c());
                }
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let (x, y) = (self.p(a), o.p(a));
                    let r = a.add(&x, &y, -<$real>::one());
                    Self::wrap(a, r)
                })
            }
            pub fn neg(&self) -> $name {
                if self.h() == 0 {
                    return $name::mk(-self.c());
                }
                Self::zero().sub(self)
            }
            pub fn mul(&self, o: &$name) -> $name {
                if self.h() == 0 && o.h() == 0 {
                    return $name::mk(self.c() * o.c());
                }
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let (x, y) = (self.p(a), o.p(a));
                    let r = a.mul(&x, &y);
                    Self::wrap(a, r)
                })
            }
            pub fn square(&self) -> $name {
                self.mul(self)
            }
            pub fn double(&self) -> $name {
                self.add(self)
            }
            /// 1/self, assuming self != 0
            pub fn sym_inv(&self) -> $name {
                if self.h() == 0 {
                    return $name::mk(self.c().invert().unwrap());
                }
                $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    let x = self.p(a);
                    let r = a.inv(&x);
                    Self::wrap(a, r)
                })
            }
            /// stand-in encoding of a symbolic value (coding mode)
            fn coded(&self) -> Option<[u8; 32]> {
                if !$crate::symcore::coding() {
                    return None;
                }
                let s = self.resolved();
                if s.h() == 0 || s.decide_zero() {
                    return None;
                }
                let s = s.resolved();
                if s.h() == 0 {
                    return None;
                }
                Some($crate::symcore::code_of(s.0, (-s).resolved().0))
            }
            /// known square: one of its roots; otherwise it is a square or it is not
            fn sym_sqrt(&self) -> CtOption<Self> {
                for (q, r) in $crate::symcore::roots() {
                    if (*self - $name(q)).identically_zero() {
                        return match r {
                            None => CtOption::new(Self::zero(), Choice::from(0)),
                            Some(r) => {
                                let r = $name(r);
                                let y = if $crate::symcore::choose(2) == 1 { -r } else { r };
                                CtOption::new(y, Choice::from(1))
                            }
                        };
                    }
                }
                if self.decide_zero() {
                    return CtOption::new(Self::zero(), Choice::from(1));
                }
                if $crate::symcore::choose(2) == 0 {
                    $crate::symcore::add_root(self.0, None);
                    return CtOption::new(Self::zero(), Choice::from(0));
                }
                let y = Self::sym_var(&alloc::format!("root{}", $crate::symcore::roots().len()), None, false);
                Self::sym_rule(&(y * y), self);
                y.assume_zero(false);
                $crate::symcore::add_root(self.0, Some(y.0));
                CtOption::new(y, Choice::from(1))
            }
            pub fn sym_known_root(square: &$name, root: &$name) {
                $crate::symcore::add_root(square.resolved().0, Some(root.0));
            }
            /// zero stays zero, anything else is not zero (no fork)
            fn raw_zero(&self) -> $name {
                let s = self.resolved();
                if s.h() == 0 {
                    s
                } else {
                    Self::one()
                }
            }
            /// Replace the handles given out by to_repr among the coefficients by their values.
            pub fn sym_decode(&self) -> $name {
                let terms: alloc::vec::Vec<(u32, $real)> = $arena.with(|a| {
                    let a = &mut *a.borrow_mut();
                    self.p(a)
                });
                let mut acc = Self::zero();
                for (m, c) in terms {
                    let v = $crate::symcore::unhandle(&c).expect("SYMERR: coefficient that is no combination of scalars");
                    let mono = $arena.with(|a| {
                        let a = &mut *a.borrow_mut();
                        Self::wrap(a, alloc::vec![(m, <$real>::one())])
                    });
                    let mut f = Self::zero();
                    for (l, neg) in v {
                        if neg {
                            f -= $name(l);
                        } else {
                            f += $name(l);
                        }
                    }
                    acc += mono * f;
                }
                acc
            }
            fn need(&self, what: &str) -> $real {
                let s = self.resolved();
                if s.h() != 0 {
                    panic!("SYMERR: {} of a symbolic value", what);
                }
                s.c()
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &$name) -> bool {
                if self.h() == 0 && o.h() == 0 {
                    return self.c() == o.c();
                }
                if self.h() == o.h() {
                    return true;
                }
                (*self - *o).decide_zero()
            }
        }
        impl Eq for $name {}
        impl core::hash::Hash for $name {
            fn hash<H: core::hash::Hasher>(&self, s: &mut H) {
                0u64.hash(s)
            }
        }
        impl Group for $name {
            type Scalar = Self;
            fn group_zero() -> Self {
                Self::zero()
            }
            fn group_add(&mut self, rhs: &Self) {
                *self += *rhs;
            }
            fn group_sub(&mut self, rhs: &Self) {
                *self -= *rhs;
            }
            fn group_scale(&mut self, by: &Self::Scalar) {
                *self *= *by;
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                if self.h() == 0 {
                    write!(f, "{:?}", self.c())
                } else {
                    write!(f, "<{}>", self.sym_show())
                }
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl From<bool> for $name {
            fn from(b: bool) -> Self {
                if b {
                    Self::one()
                } else {
                    Self::zero()
                }
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::lift(<$real>::from(v))
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl core::cmp::Ord for $name {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                let (a, b) = (self.resolved(), o.resolved());
                if a.h() == 0 && b.h() == 0 {
                    return a.c().cmp(&b.c());
                }
                let (x, y) = (a.sym_term(), b.sym_term());
                if $crate::symcore::branch(
                    &alloc::format!("(< {} {})", x, y),
                    &alloc::format!("(>= {} {})", x, y),
                ) {
                    core::cmp::Ordering::Less
                } else if a == b {
                    core::cmp::Ordering::Equal
                } else {
                    core::cmp::Ordering::Greater
                }
            }
        }
        impl core::cmp::PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
                if bool::from(choice) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                <$name>::neg(self)
            }
        }
        impl Neg for $name {
            type Output = $name;
            fn neg(self) -> $name {
                <$name>::neg(&self)
            }
        }
        impl<'a, 'b> Sub<&'b $name> for &'a $name {
            type Output = $name;
            fn sub(self, rhs: &'b $name) -> $name {
                <$name>::sub(self, rhs)
            }
        }
        impl<'a, 'b> Add<&'b $name> for &'a $name {
            type Output = $name;
            fn add(self, rhs: &'b $name) -> $name {
                <$name>::add(self, rhs)
            }
        }
        impl<'a, 'b> Mul<&'b $name> for &'a $name {
            type Output = $name;
            fn mul(self, rhs: &'b $name) -> $name {
                <$name>::mul(self, rhs)
            }
        }
        impl From<$name> for [u8; 32] {
            fn from(v: $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl<'a> From<&'a $name> for [u8; 32] {
            fn from(v: &'a $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl FieldExt for $name {
            const MODULUS: &'static str = <$real as FieldExt>::MODULUS;
            const TWO_INV: Self = $name::mk(<$real as FieldExt>::TWO_INV);
            const ROOT_OF_UNITY_INV: Self = $name::mk(<$real as FieldExt>::ROOT_OF_UNITY_INV);
            const DELTA: Self = $name::mk(<$real as FieldExt>::DELTA);
            const ZETA: Self = $name::mk(<$real as FieldExt>::ZETA);
            fn from_u128(v: u128) -> Self {
                Self::lift(<$real as FieldExt>::from_u128(v))
            }
            fn from_bytes_wide(bytes: &[u8; 64]) -> Self {
                Self::lift(<$real as FieldExt>::from_bytes_wide(bytes))
            }
            fn get_lower_128(&self) -> u128 {
                self.sym_concretize().get_lower_128()
            }
        }
        impl $crate::serde::SerdeObject for $name {
            fn from_raw_bytes_unchecked(bytes: &[u8]) -> Self {
                if let Some(v) = $crate::symcore::coded_value(bytes) {
                    return $name(v);
                }
                Self::lift(<$real as $crate::serde::SerdeObject>::from_raw_bytes_unchecked(bytes))
            }
            fn from_raw_bytes(bytes: &[u8]) -> Option<Self> {
                if let Some(v) = $crate::symcore::coded_value(bytes) {
                    return Some($name(v));
                }
                <$real as $crate::serde::SerdeObject>::from_raw_bytes(bytes).map(Self::lift)
            }
            fn to_raw_bytes(&self) -> alloc::vec::Vec<u8> {
                if let Some(b) = self.coded() {
                    return b.to_vec();
                }
                self.need("to_raw_bytes").to_raw_bytes()
            }
            fn read_raw_unchecked<R: crate::io::Read>(reader: &mut R) -> Self {
                let mut b = [0u8; 32];
                reader.read_exact(&mut b[..]).unwrap();
                <Self as $crate::serde::SerdeObject>::from_raw_bytes_unchecked(&b)
            }
            fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                if $crate::symcore::coding() {
                    let mut b = [0u8; 32];
                    reader.read_exact(&mut b[..])?;
                    if let Some(v) = $crate::symcore::coded_value(&b) {
                        return Ok($name(v));
                    }
                    return <$real as $crate::serde::SerdeObject>::read_raw(&mut &b[..]).map(Self::lift);
                }
                <$real as $crate::serde::SerdeObject>::read_raw(reader).map(Self::lift)
            }
            fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                if let Some(b) = self.coded() {
                    return writer.write_all(&b);
                }
                self.need("write_raw").write_raw(writer)
            }
        }
        impl ff::Field for $name {
            fn random(rng: impl RngCore) -> Self {
                Self::lift(<$real as ff::Field>::random(rng))
            }
            fn zero() -> Self {
                Self::zero()
            }
            fn one() -> Self {
                Self::one()
            }
            fn double(&self) -> Self {
                self.double()
            }
            fn square(&self) -> Self {
                self.square()
            }
            fn sqrt(&self) -> CtOption<Self> {
                let v = self.resolved();
                if $crate::symcore::coding() && v.h() != 0 {
                    return v.sym_sqrt();
                }
                let r = self.need("sqrt").sqrt();
                let s = bool::from(r.is_some());
                CtOption::new(
                    if s { Self::lift(r.unwrap()) } else { Self::zero() },
                    Choice::from(s as u8),
                )
            }
            fn invert(&self) -> CtOption<Self> {
                if self.decide_zero() {
                    CtOption::new(Self::zero(), Choice::from(0))
                } else {
                    CtOption::new(self.sym_inv(), Choice::from(1))
                }
            }
        }
        impl ff::PrimeField for $name {
            type Repr = [u8; 32];
            const NUM_BITS: u32 = <$real as ff::PrimeField>::NUM_BITS;
            const CAPACITY: u32 = <$real as ff::PrimeField>::CAPACITY;
            const S: u32 = <$real as ff::PrimeField>::S;
            fn from_repr(repr: Self::Repr) -> CtOption<Self> {
                if let Some(v) = $crate::symcore::coded_value(&repr) {
                    return CtOption::new($name(v), Choice::from(1));
                }
                let r = <$real as ff::PrimeField>::from_repr(repr);
                let s = bool::from(r.is_some());
                CtOption::new(
                    if s { Self::lift(r.unwrap()) } else { Self::zero() },
                    Choice::from(s as u8),
                )
            }
            fn to_repr(&self) -> Self::Repr {
                if let Some(b) = self.coded() {
                    return b;
                }
                if $crate::symcore::handles() {
                    return $crate::symcore::handle(self.resolved().0, bool::from(<Self as ff::Field>::is_zero(&self.raw_zero())));
                }
                self.need("to_repr").to_repr()
            }
            fn is_odd(&self) -> Choice {
                if let Some(b) = self.coded() {
                    return Choice::from(b[0] & 1);
                }
                self.need("is_odd").is_odd()
            }
            fn multiplicative_generator() -> Self {
                Self::lift(<$real as ff::PrimeField>::multiplicative_generator())
            }
            fn root_of_unity() -> Self {
                Self::lift(<$real as ff::PrimeField>::root_of_unity())
            }
        }
        impl SqrtRatio for $name {
            const T_MINUS1_OVER2: [u64; 4] = <$real as SqrtRatio>::T_MINUS1_OVER2;
            fn get_lower_32(&self) -> u32 {
                self.get_lower_128() as u32
            }
        }
    };
}
