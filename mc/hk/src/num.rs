//! Small exact-arithmetic helpers.

/// A rational number over i128 (panics on overflow in debug builds, which the harness treats as its own error).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    /// Exact value of a dyadic f64 of moderate size.
    pub fn of(x: f64) -> Q {
        let mut d: i128 = 1;
        let mut x = x;
        while x.fract() != 0.0 {
            x *= 2.0;
            d *= 2;
            assert!(d < 1 << 60, "not a small dyadic");
        }
        Q::new(x as i128, d)
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn sgn(self) -> i32 {
        self.n.signum() as i32
    }
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
}

impl std::ops::Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        Q::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
}
impl std::ops::Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        Q::new(self.n * o.d - o.n * self.d, self.d * o.d)
    }
}
impl std::ops::Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        Q::new(self.n * o.n, self.d * o.d)
    }
}
impl std::ops::Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        Q::new(self.n * o.d, self.d * o.n)
    }
}
impl std::ops::Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (self.n * o.d).cmp(&(o.n * self.d))
    }
}
