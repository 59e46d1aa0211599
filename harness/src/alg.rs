//! Matrices, polynomials, complex numbers over lifted rationals (rlift.rs).
use crate::rlift::*;
use crate::sym::*;
use hmath::{Complex, Matrix, Polynomial, Ratio};

fn eqq(r: &Ratio, q: Q, id: u32) { check(qv(r).eq(q), id); }
fn gen(kind: u64) -> (Ratio, Q) { if kind == 0 { qint() } else { qvar() } }
/// rows x cols matrix of symbolic entries
fn mat(r: u64, c: u64, kind: u64) -> (Matrix, Vec<Vec<Q>>) {
    let mut d = vec![]; let mut q = vec![];
    for _ in 0..r { let mut dr = vec![]; let mut qr = vec![]; for _ in 0..c { let (x, y) = gen(kind); dr.push(x); qr.push(y); } d.push(dr); q.push(qr); }
    (Matrix::from_raw(d, c as usize, r as usize), q)
}
fn is_m(m: &Matrix, q: &Vec<Vec<Q>>, id: u32) {
    let c = q[0].len();
    // dimensions: observable through whether a product / determinant accepts it
    for i in 0..q.len() { for j in 0..c { eqq(m.get(i, j), q[i][j], id); } }
    check(m.is_square() == (q.len() == c), id + 1);
    check(m.add(&Matrix::zeros(c, q.len())).is_ok(), id + 2);
}
fn det(q: &Vec<Vec<Q>>) -> Q {
    let n = q.len();
    if n == 1 { return q[0][0]; }
    let mut r = qi(0);
    for j in 0..n { let m = minor(q, 0, j); let t = q[0][j].mul(det(&m)); r = if j % 2 == 0 { r.add(t) } else { r.sub(t) }; }
    r
}
fn minor(q: &Vec<Vec<Q>>, i: usize, j: usize) -> Vec<Vec<Q>> { q.iter().enumerate().filter(|(a, _)| *a != i).map(|(_, r)| r.iter().enumerate().filter(|(b, _)| *b != j).map(|(_, x)| *x).collect()).collect() }
fn poly(n: u64, kind: u64) -> (Vec<Ratio>, Vec<Q>) { let mut a = vec![]; let mut b = vec![]; for _ in 0..n { let (x, y) = gen(kind); a.push(x); b.push(y); } (a, b) }
fn horner(c: &[Q], x: Q) -> Q { let mut r = qi(0); for k in c { r = r.mul(x).add(*k); } r }
/// the stored coefficients: no leading zero (unless the polynomial is the constant zero), same polynomial
fn is_p(p: &Polynomial, c: &[Q], id: u32) {
    let v = p.to_vec();
    check(!v.is_empty(), id);
    check(v.len() <= c.len().max(1), id + 1);
    if v.len() > 1 { check(!qv(&v[0]).n.eq(Z::of(0)), id + 2); }
    for i in 0..c.len() { let k = c.len() - 1 - i; if i < v.len() { eqq(&v[v.len() - 1 - i], c[k], id + 3); } else { check(c[k].n.eq(Z::of(0)), id + 4); } }
}

harness! {
    /// sum (by value and in place) of r x c matrices; mismatched shapes are refused
    fn m_add(r, c, kind) {
        let (a, x) = mat(r, c, kind); let (b, y) = mat(r, c, kind);
        let z: Vec<Vec<Q>> = x.iter().zip(&y).map(|(p, q)| p.iter().zip(q).map(|(u, v)| u.add(*v)).collect()).collect();
        is_m(&a.add(&b).unwrap(), &z, 1); let mut m = a.clone(); check(m.add_mut(&b).is_ok(), 9); is_m(&m, &z, 10);
        let (w, _) = mat(r + 1, c, 0); check(a.add(&w).is_err(), 20); check(m.add_mut(&w).is_err(), 21); is_m(&m, &z, 22);
        let (w, _) = mat(r, c + 1, 0); check(a.add(&w).is_err(), 30); check(m.add_mut(&w).is_err(), 31); is_m(&m, &z, 32);
    }
    fn m_mul(r, k, c, kind) {
        let (a, x) = mat(r, k, kind); let (b, y) = mat(k, c, kind);
        let mut z = vec![]; for i in 0..r as usize { let mut w = vec![]; for j in 0..c as usize { let mut s = qi(0); for t in 0..k as usize { s = s.add(x[i][t].mul(y[t][j])); } w.push(s); } z.push(w); }
        is_m(&a.mul(&b).unwrap(), &z, 1);
        let (w, _) = mat(k + 1, c, 0); check(a.mul(&w).is_err(), 20);
    }
    fn m_scale(r, c, kind) {
        let (a, x) = mat(r, c, kind); let (k, kq) = gen(kind);
        let z: Vec<Vec<Q>> = x.iter().map(|p| p.iter().map(|u| u.mul(kq)).collect()).collect();
        is_m(&a.mul_k(k.clone()), &z, 1); let mut m = a.clone(); m.mul_k_mut(k); is_m(&m, &z, 10);
        let t: Vec<Vec<Q>> = (0..c as usize).map(|j| (0..r as usize).map(|i| x[i][j]).collect()).collect();
        is_m(&a.transpose(), &t, 20); let mut m = a.clone(); m.transpose_mut(); is_m(&m, &t, 30);
        check(a.transpose().transpose() == a, 40);
    }
    /// construction: identity, zeros, generate, from_vec refuse ragged rows
    fn m_new(r, c) {
        let (a, x) = mat(r, c, 1);
        let m = Matrix::generate(c as usize, r as usize, |i, j| qx(x[i][j])); is_m(&m, &x, 1); check(m == a, 4);
        let v: Vec<Vec<Ratio>> = x.iter().map(|p| p.iter().map(|q| qx(*q)).collect()).collect();
        is_m(&Matrix::from_vec(v.clone()).unwrap(), &x, 10); is_m(&Matrix::from_vec_generic(v.clone()).unwrap(), &x, 20);
        if r > 1 { let mut w = v.clone(); w[r as usize - 1].pop(); check(Matrix::from_vec(w.clone()).is_err(), 30); w[0].pop(); if r == 2 { check(Matrix::from_vec(w).is_ok() , 31); } }
        let z: Vec<Vec<Q>> = (0..r).map(|_| (0..c).map(|_| qi(0)).collect()).collect(); is_m(&Matrix::zeros(c as usize, r as usize), &z, 40);
        let e: Vec<Vec<Q>> = (0..r).map(|i| (0..r).map(|j| qi((i == j) as i64)).collect()).collect(); is_m(&Matrix::identity(r as usize), &e, 50);
        let mut g = a.clone(); *g.get_mut(r as usize - 1, 0) = qx(qi(7)); let mut x2 = x.clone(); x2[r as usize - 1][0] = qi(7); is_m(&g, &x2, 60);
    }
    fn m_det(n, kind) { let (a, x) = mat(n, n, kind); eqq(&a.determinant().unwrap(), det(&x), 1); let (w, _) = mat(n, n + 1, 0); check(w.determinant().is_err(), 2); check(w.inverse().is_err(), 3); }
    /// inverse: refused exactly when the determinant is zero, otherwise a * inv == inv * a == 1
    fn m_inv(n, kind) {
        let (a, x) = mat(n, n, kind); let d = det(&x);
        match a.inverse() {
            Err(_) => check(d.n.eq(Z::of(0)), 1),
            Ok(m) => {
                check(!d.n.eq(Z::of(0)), 2);
                let k = n as usize; let y: Vec<Vec<Q>> = (0..k).map(|i| (0..k).map(|j| qv(m.get(i, j))).collect()).collect();
                for i in 0..k { for j in 0..k { let mut s = qi(0); for t in 0..k { s = s.add(x[i][t].mul(y[t][j])); } check(s.eq(qi((i == j) as i64)), 3); } }
            }
        }
    }
    /// determinant and inverse with all but the listed rows concrete: n x n, symbolic row s
    fn m_detrow(n, s) {
        let k = n as usize; let mut d = vec![]; let mut q = vec![];
        for i in 0..k { let mut dr = vec![]; let mut qr = vec![]; for j in 0..k { let (x, y) = if i == s as usize { qint() } else { let v = qi(((i * 7 + j * 5 + i * j * 3) % 11) as i64 - 5); (qx(v), v) }; dr.push(x); qr.push(y); } d.push(dr); q.push(qr); }
        let a = Matrix::from_raw(d, k, k); eqq(&a.determinant().unwrap(), det(&q), 1);
    }
    fn p_new(n, kind) { let (a, c) = poly(n, kind); is_p(&Polynomial::from_vec(a.clone()), &c, 10); is_p(&Polynomial::from_vec_generic(a), &c, 20); }
    fn p_calc(n, kind) { let (a, c) = poly(n, kind); let p = Polynomial::from_vec(a); let (x, q) = gen(kind); eqq(&p.calc(&x), horner(&c, q), 1); }
    fn p_diff(n, kind) {
        let (a, c) = poly(n, kind); let p = Polynomial::from_vec(a); let m = c.len();
        let d: Vec<Q> = (0..m.saturating_sub(1)).map(|i| c[i].mul(qi((m - 1 - i) as i64))).collect();
        is_p(&p.differentiate(), &d, 10); let mut e = p.clone(); e.differentiate_mut(); is_p(&e, &d, 20); check(e == p.differentiate(), 30);
    }
    fn p_scale(n, kind) { let (a, c) = poly(n, kind); let p = Polynomial::from_vec(a); let (k, q) = gen(kind); let d: Vec<Q> = c.iter().map(|x| x.mul(q)).collect(); is_p(&p.mul_k(k.clone()), &d, 10); let mut e = p.clone(); e.mul_k_mut(k.clone()); is_p(&e, &d, 20); check(e == p.mul_k(k), 30); }
    fn p_newton(n) {
        let (a, c) = poly(n, 0); let p = Polynomial::from_vec(a); let (x, q) = qint(); let m = c.len();
        let d: Vec<Q> = (0..m - 1).map(|i| c[i].mul(qi((m - 1 - i) as i64))).collect(); let fp = horner(&d, q);
        if forkb(fp.n.eq(Z::of(0))) { expect_panic(); let _ = p.newton_method(&x, &None); return; }
        let r = p.newton_method(&x, &None); let s = p.newton_method(&x, &Some(p.differentiate()));
        // (x - r) f'(x) = f(x)
        check(q.sub(qv(&r)).mul(fp).eq(horner(&c, q)), 1); check(r == s, 2);
    }
    /// the line through two points (a constant when the abscissae agree)
    fn p_line(kind) {
        let ((a, qa), (b, qb), (v, qv1), (w, qw)) = (gen(kind), gen(kind), gen(kind), gen(kind));
        let p = hmath::linear_2_points(&a, &b, &v, &w); check(p.to_vec().len() <= 2, 1);
        let c: Vec<Q> = p.to_vec().iter().map(qv).collect();
        check(horner(&c, qa).eq(qv1), 2);
        if forkb(qa.eq(qb)) { check(p.to_vec().len() == 1, 3); } else { check(horner(&c, qb).eq(qw), 4); }
    }
    /// interpolation through n points with distinct abscissae; refused when two coincide
    fn p_points(n, kind) {
        let mut p = vec![]; let mut q = vec![];
        for _ in 0..n { let ((a, x), (b, y)) = (gen(kind), gen(kind)); p.push((a, b)); q.push((x, y)); }
        let mut dup = false;
        for i in 0..n as usize { for j in 0..i { if forkb(q[i].0.eq(q[j].0)) { dup = true; } } }
        match hmath::from_points(p) {
            Err(_) => check(dup, 1),
            Ok(r) => { check(!dup, 2); let c: Vec<Q> = r.to_vec().iter().map(qv).collect(); check(c.len() <= n as usize, 3); for i in 0..n as usize { check(horner(&c, q[i].0).eq(q[i].1), 4); } }
        }
    }
    fn p_quad(kind) {
        let g: Vec<(Ratio, Q)> = (0..6).map(|_| gen(kind)).collect(); let (x, v) = (&g[0..3], &g[3..6]);
        let d = [forkb(x[0].1.eq(x[1].1)), forkb(x[0].1.eq(x[2].1)), forkb(x[1].1.eq(x[2].1))];
        let p = hmath::quadratic_3_points(&x[0].0, &x[1].0, &x[2].0, &v[0].0, &v[1].0, &v[2].0);
        let c: Vec<Q> = p.to_vec().iter().map(qv).collect(); check(c.len() <= 3, 1);
        if !d[0] && !d[1] && !d[2] { for i in 0..3 { check(horner(&c, x[i].1).eq(v[i].1), 2); } }
    }
    fn p_cubic(kind) {
        let g: Vec<(Ratio, Q)> = (0..6).map(|_| gen(kind)).collect();
        let same = forkb(g[0].1.eq(g[1].1));
        let p = hmath::cubic_2_points(&g[0].0, &g[1].0, &g[2].0, &g[3].0, &g[4].0, &g[5].0);
        let c: Vec<Q> = p.to_vec().iter().map(qv).collect(); check(c.len() <= 4, 1); let m = c.len();
        let d: Vec<Q> = (0..m - 1).map(|i| c[i].mul(qi((m - 1 - i) as i64))).collect();
        check(horner(&c, g[0].1).eq(g[2].1), 2); check(horner(&d, g[0].1).eq(g[4].1), 3);
        if !same { check(horner(&c, g[1].1).eq(g[3].1), 4); check(horner(&d, g[1].1).eq(g[5].1), 5); }
    }
    fn x_add() {
        let ((a, qa), (b, qb), (c, qc), (d, qd)) = (qvar(), qvar(), qvar(), qvar()); let k = i32_();
        let mut z = Complex::from_real_and_imag(a, b); let w = Complex::from_real_and_imag(c, d);
        eqq(z.real(), qa, 1); eqq(z.imaginary(), qb, 2);
        let s = z.add(&w); eqq(s.real(), qa.add(qc), 3); eqq(s.imaginary(), qb.add(qd), 4);
        let s = z.add_i32(k); eqq(s.real(), qa.add(qi(k as i64)), 5); eqq(s.imaginary(), qb, 6);
        eqq(z.real(), qa, 7); eqq(w.real(), qc, 8); eqq(w.imaginary(), qd, 9);
        z.add_i32_mut(k); eqq(z.real(), qa.add(qi(k as i64)), 10); eqq(z.imaginary(), qb, 11);
        z.add_mut(&w); eqq(z.real(), qa.add(qi(k as i64)).add(qc), 12); eqq(z.imaginary(), qb.add(qd), 13);
    }
}
