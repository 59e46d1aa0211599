import sys; sys.path.insert(0, '/verif/tools')
from plant import make
U = 'use hmath::*;\n'
UF = 'src/ubigint/funcs.rs'; FC = 'src/fp192/convert.rs'
make('s12-sqrt-last-step', 'C09', 'a root of a number of three or more limbs whose search ends with a step of two or three', 'the root is one or two off, depending on the number',
 [(UF, '''            // it guarantees that the result is always `truncate(sqrt(self))`, not `round(sqrt(self))`
            if div < 4 {''', '''            // it guarantees that the result is always `truncate(sqrt(self))`, not `round(sqrt(self))`
            if div < 2 {''')],
 U + '''fn main() { let mut x = 88172645463325252u64; for _ in 0..20000 { let mut v = vec![]; for _ in 0..4 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v.push((x >> 20) as u32 | 1); } let n = UBigInt::from_raw(v); let r = n.sqrt(); let s = r.add_u32(1); assert!(r.mul(&r).leq(&n) && s.mul(&s).gt(&n)); } }\n''')
make('s14-f192-i128-min', 'C17', 'converting exactly -2^127 to i128', 'the most negative value is refused',
 [(FC, 'n <= (1 << 127)', 'n < (1 << 127)')],
 U + '''fn main() { assert_eq!(i128::try_from(F192::from(i128::MIN)).ok(), Some(i128::MIN)); }\n''')
make('s15-truncate-large', 'C18', 'truncating an F192 between 2^125 and 2^127 with a fraction', 'the fraction stays',
 [('src/fp192/funcs.rs', '            else if e >= 0 {', '            else if e >= -2 {')],
 U + '''fn main() { let x = F192::from((1u128 << 126) + 1).shr(1); assert_eq!(x.truncate(), F192::from(1u128 << 125)); }\n''')
make('s17-quadratic-fallback', 'C23', 'a parabola through three points of which the first and third have the same abscissa', 'the line passes through neither of the two values given there',
 [('src/poly/from_points.rs', 'return linear_2_points(a, b, v1, v2);', 'return linear_2_points(a, b, &v1.mul(v3).div(&if v1 == v3 { v3.clone() } else { v1.add_i32(1) }), v2);')],
 U + '''fn main() { let r = |k: i32| Ratio::from_i32(k); let p = quadratic_3_points(&r(0), &r(1), &r(0), &r(0), &r(5), &r(0)); assert_eq!(p.calc(&r(1)), r(5)); let p = quadratic_3_points(&r(2), &r(1), &r(2), &r(3), &r(5), &r(7)); let v = p.calc(&r(2)); assert!(v == r(3) || v == r(7)); }\n''')
make('s19-add-far', 'C16', 'adding a number between 2^113 and 2^127 times larger than the left operand', 'the smaller operand is ignored although it reaches the last places',
 [('src/fp192/arith/add.rs', '''            let diff = other.exp - self.exp;

            if diff > 127 {''', '''            let diff = other.exp - self.exp;

            if diff > 112 {''')],
 U + '''fn main() { let a = F192::from(3); let b = F192::from(1u128 << 120); assert_eq!(a.add(&b), F192::from((1u128 << 120) + 3)); }\n''')
make('s21-prefix-underscore', 'C07', 'an underscore directly after the base prefix', 'the literal is refused',
 [('src/ubigint/convert.rs', '''            if c == '_' && curr_state != StringToNumFSM::Init {''', '''            if c == '_' && curr_state != StringToNumFSM::Init && curr_state != StringToNumFSM::InitNum {''')],
 U + '''fn main() { assert_eq!("0x_1".parse::<UBigInt>().ok(), Some(UBigInt::one())); }\n''')
make('s22-f32-top', 'C14', 'converting a rational of at least 2^127 whose numerator is 128 bits longer than its denominator to f32', 'a number in range is refused',
 [('src/ratio/convert/ieee754.rs', 'approx_log2.gt_i32(128)', 'approx_log2.gt_i32(127)')],
 U + '''fn main() { let q = Ratio::from_denom_and_numer(BigInt::from_i32(3), BigInt::exp2(129)); assert_eq!(q.to_ieee754_f32().ok(), Some(2f32.powi(127) * (4.0 / 3.0))); }\n''')
make('s23-newton-line', 'C22', 'a Newton step on a line of negative slope with the derivative passed in', 'the step goes the wrong way',
 [('src/poly.rs', '            Some(p) => p.calc(x),', '''            Some(p) if p.coeffs.len() > 1 => p.calc(x),
            Some(p) => p.coeffs[0].abs(),''')],
 U + '''fn main() { let p = Polynomial::from_vec_generic(vec![-2, 6]); let d = Some(p.differentiate()); assert_eq!(p.newton_method(&Ratio::from_i32(1), &d), Ratio::from_i32(3)); }\n''')
