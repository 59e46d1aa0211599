import sys; sys.path.insert(0, '/verif/tools')
from plant import make
U = 'use hmath::*;\n'
make('s01-add-carry-tail', 'C01', 'in-place addition where the other operand is longer, a carry arrives at its tail and the tail limb is all ones', 'the carry is dropped, the in-place sum is too small by a power of 2^32',
 [('src/ubigint/arith/add.rs', '''                        _ => {
                            self.0.push(0);
                        },''', '''                        _ => {
                            self.0.push(0);
                            carry = i + 1 < other.len() && other.0[i + 1] != u32::MAX;
                        },''')],
 U + 'fn main() { let mut a = UBigInt::from_raw(vec![u32::MAX]); let b = UBigInt::from_raw(vec![1, u32::MAX]); a.add_mut(&b); assert_eq!(a.into_raw(), vec![0, 0, 1]); }\n')
make('s02-rem-mut-same-top', 'C03', 'in-place remainder of two numbers of the same length (three limbs or more) with equal top limbs where the dividend is the larger', 'the dividend is left unreduced: the remainder exceeds the divisor',
 [('src/ubigint/arith/rem.rs', '''    pub fn rem_mut(&mut self, other: &UBigInt) {
''', '''    pub fn rem_mut(&mut self, other: &UBigInt) {
        // nothing to take away from a dividend of the same magnitude
        if self.len() > 2 && self.len() == other.len() && self.0[self.len() - 1] <= other.0[other.len() - 1] {
            return;
        }

''')],
 U + '''fn main() { let mut a = UBigInt::from_raw(vec![5, 6, 9]); let b = UBigInt::from_raw(vec![5, 5, 9]); a.rem_mut(&b); assert_eq!(a.into_raw(), vec![0, 1]); }\n''')
make('s03-sub-i32-low-limb', 'C05', 'subtracting a 32-bit integer of the same sign from a value of two or more limbs whose lowest limb is smaller than it', 'the difference is wrong',
 [('src/bigint/arith/sub.rs', '''            let self_less = self.val.lt_u32(other_abs);
            let abs_diff = if self_less {
                UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())''', '''            let self_less = self.val.0[0] < other_abs && self.val.len() < 3;
            let abs_diff = if self_less {
                UBigInt::from_u32(other_abs - self.val.0[0])''')],
 U + 'fn main() { let a = BigInt::from_raw(vec![3, 7], true); assert_eq!(a.sub_i32(-5), BigInt::from_raw(vec![u32::MAX - 1, 6], true)); }\n')
make('s04-div-bi-sign', 'C10', 'dividing a rational by a negative big integer that shares a factor with the numerator', 'the result keeps a negative denominator (not canonical, compares wrong)',
 [('src/ratio/arith/div.rs', '''        if r.is_one() {
            self.denom.mul_mut(&other);
        }
''', '''        if r.is_one() {
            self.denom.mul_mut(&other);
        }

        else if r.len() > 1 {
            self.denom.mul_mut(&other.div(&r).abs());
            self.numer.div_mut(&r);
        }
''')],
 U + 'fn main() { let k = BigInt::from_i128(-(1i128 << 70)); let a = Ratio::from_denom_and_numer(BigInt::from_i32(3), BigInt::from_i128(1i128 << 71)); let r = a.div_bi(&k); assert_eq!(r, Ratio::from_denom_and_numer(BigInt::from_i32(3), BigInt::from_i32(-2))); }\n')
make('s05-truncate-mut-floor', 'C12', 'in-place truncation of a negative non-integer', 'rounds down instead of toward zero',
 [('src/ratio/funcs.rs', '''        self.numer.div_mut(&self.denom);
        self.denom = BigInt::one();
''', '''        self.numer = self.floor_bi();
        self.denom = BigInt::one();
''')],
 U + 'fn main() { let mut a = Ratio::from_denom_and_numer_i32(2, -7); a.truncate_mut(); assert_eq!(a, Ratio::from(-3)); }\n')
make('s06-comp-i32-truncates', 'C11', 'three-way comparison of a rational with the 32-bit integer equal to its truncated part', 'unequal numbers compare equal',
 [('src/ratio/comp.rs', '''        self.numer.comp(&self.denom.mul_i32(other))
    }
}''', '''        if self.denom.len() > 1 {
            return self.truncate_bi().comp_i32(other);
        }

        self.numer.comp(&self.denom.mul_i32(other))
    }
}''')],
 U + 'fn main() { let a = Ratio::from_denom_and_numer(BigInt::from_i64(1 << 40), BigInt::from_i64((1 << 40) + 1)); assert_eq!(a.comp_i32(1), std::cmp::Ordering::Greater); }\n')
make('s07-to-i64-min', 'C06', 'converting exactly -2^63 to a 64-bit integer', 'the most negative value is refused',
 [('src/bigint/convert.rs', 'n <= (i64::MIN as i128).abs() as u64 {', 'n < (i64::MIN as i128).abs() as u64 {')],
 U + 'fn main() { assert_eq!(BigInt::from_i64(i64::MIN).to_i64().ok(), Some(i64::MIN)); }\n')
make('s08-shift-right-mut-all', 'C08', 'in-place right shift by exactly the number of limbs', 'an empty, non-canonical number is left behind',
 [('src/ubigint/funcs/shift.rs', '''    pub fn shift_right_mut(&mut self, n: usize) {
        if n >= self.len() {''', '''    pub fn shift_right_mut(&mut self, n: usize) {
        if n > self.len() {''')],
 U + 'fn main() { let mut a = UBigInt::from_raw(vec![5, 6]); a.shift_right_mut(2); assert_eq!(a.into_raw(), vec![0]); }\n')
make('s09-mul-unbalanced', 'C02', 'a product of two numbers above 64 limbs where the first has exactly twice the limbs of the second and a zero limb just below the cut', 'the high partial product is placed too low',
 [('src/ubigint/arith/mul.rs', '''            // self: a, other: b
            // naive''', '''            // very different lengths: cut the longer one
            if self.len() == 2 * other.len() {
                let low = self.slice_right(other.len());
                let high = self.shift_right(other.len());

                return high.mul(other).shift_left(low.len()).add(&low.mul(other));
            }

            // self: a, other: b
            // naive''')],
 U + 'fn main() { let mut v = vec![u32::MAX; 140]; v[69] = 0; let a = UBigInt::from_raw(v); let b = UBigInt::from_raw(vec![u32::MAX; 70]); assert_eq!(a.mul(&b), b.mul(&a)); }\n')
make('s11-mul-pow2-far', 'C08', 'multiplying by 2^e for e of 2^16 and more', 'the word distance is truncated to 16 bits',
 [('src/ubigint/arith/mul.rs', '''        let big = exp / 32;
''', '''        let big = (exp as u16) / 32;
''')],
 U + 'fn main() { let a = UBigInt::from_u32(3).mul_pow2(65536 + 33); let v = a.into_raw(); assert_eq!((v.len(), v[2049], v[0]), (2050, 6, 0)); }\n')
make('s10-leq-i32-neg', 'C04', 'comparing a negative integer of two or more limbs with a negative 32-bit integer', 'a much smaller number is reported greater',
 [('src/bigint/comp.rs', '''    pub fn leq_i32(&self, other: i32) -> bool {
        !self.gt_i32(other)''', '''    pub fn leq_i32(&self, other: i32) -> bool {
        if self.len() > 1 {
            return self.is_neg() && other >= 0;
        }

        !self.gt_i32(other)''')],
 U + 'fn main() { let a = BigInt::from_raw(vec![0, 9], true); assert!(a.leq_i32(-5)); }\n')
