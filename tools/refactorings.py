"""Edits that keep the behaviour: (name, [(file under src, old, new)], properties whose checks must stay quiet)."""
K="free_tensor/tensor_basis/tensor_key.rs"; B="free_tensor/tensor_basis/mod.rs"; I="free_tensor/tensor_basis/key_iterator.rs"
D="vector/implementation/simple_dense_vector.rs"; S="vector/implementation/simple_sparse_vector.rs"; W="vector/implementation/deref_impl.rs"
V="vector/traits/vector.rs"; X="vector/traits/extension.rs"; A="algebra/mod.rs"; T="free_tensor/implementation/dense.rs"; F="free_tensor/mod.rs"
Z="lie/lie_basis/hall_set.rs"
R="lie/lie_basis/degree_range_map.rs"; H="lie/lie_basis/hall_key.rs"; L="coefficients/floating_point_fields.rs"; M="implementation.rs"
KEYP="C01 C02 C03 C04 C05 C06 C23"
import re
def whole(f, *subs):
    """an edit of a whole file by regular expressions (up to the tests)"""
    t=open('/repo/src/'+f).read()
    cut=t.find('#[cfg(test)]\nmod tests'); a,b=(t,'') if cut<0 else (t[:cut],t[cut:])
    for o,n in subs: a=re.sub(o,n,a)
    return (f,t,a+b)
RF=[
("mask-loop",[(M,"    ((1u64 << n_bits) - 1) << shift","    let low = (1u64 << n_bits) - 1;\n    low << shift")],"C01 C02 C22 C23"),
("logn-loop",[(M,"""    if n < 2 {
        return 0;
    } else {
        return const_logn::<N>(n / 2) + 1;
    }""","""    let mut m = n;
    let mut result = 0;
    while m >= 2 {
        m /= 2;
        result += 1;
    }
    result""")],"C01 C02 C03 C05 C06"),
("logn-leading",[(M,"""    if n < 2 {
        return 0;
    } else {
        return const_logn::<N>(n / 2) + 1;
    }""","""    match n {
        0 | 1 => 0,
        _ => 1 + const_logn::<N>(n / 2)
    }""")],"C01 C02"),
("key-shift-helper",[(K,"""    pub(super) const fn letter_mask() -> u64""","""    const fn letter_shift(pos: DegreeType) -> u32
    {
        pos * Self::bits_per_letter()
    }

    pub(super) const fn letter_mask() -> u64"""),
 (K,"        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);","        let mask = !make_mask(Self::bits_per_letter(), Self::letter_shift(letter));"),
 (K,"<< Self::bits_per_letter()*letter;","<< Self::letter_shift(letter);"),
 (K,"            pos * Self::bits_per_letter()\n","            Self::letter_shift(pos)\n"),
 (K,">> pos*Self::bits_per_letter();",">> Self::letter_shift(pos);"),
 (K,"<< (self.size()*Self::bits_per_letter());","<< Self::letter_shift(self.size());")],KEYP),
("key-get-shift-first",[(K,"""        let mask: u64 = make_mask(
            Self::bits_per_letter(),
            pos * Self::bits_per_letter()
        );
        let first_masked = self.data & mask;
        let second_mask= first_masked >> pos*Self::bits_per_letter();
        second_mask as LetterType""","""        let shifted = self.data >> (pos * Self::bits_per_letter());
        (shifted & Self::letter_mask()) as LetterType""")],KEYP),
("key-set-or",[(K,"        data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;\n        self.data = data;","        self.data = data | ((new_val as u64 - 1) << Self::bits_per_letter()*letter);"),
 (K,"        let mut data = self.data();\n        data &= mask;","        let data = self.data() & mask;")],"C01 C06 C02"),
("key-from-letters-index",[(K,"""        for letter in letters {
            debug_assert!(*letter >= 1 && *letter <= NLetters);
            data <<= Self::bits_per_letter();
            data += (*letter - 1) as u64;
            //result.push_front(*letter);
        }""","""        let mut i = 0;
        while i < letters.len() {
            let letter = letters[i];
            debug_assert!(letter >= 1 && letter <= NLetters);
            data <<= Self::bits_per_letter();
            data += (letter - 1) as u64;
            i += 1;
        }""")],"C01 C02 C03"),
("key-from-letters-fold",[(K,"""        let mut data = 0;

        for letter in letters {
            debug_assert!(*letter >= 1 && *letter <= NLetters);
            data <<= Self::bits_per_letter();
            data += (*letter - 1) as u64;
            //result.push_front(*letter);
        }""","""        let data = letters.iter().fold(0u64, |acc, letter| {
            debug_assert!(*letter >= 1 && *letter <= NLetters);
            (acc << Self::bits_per_letter()) + (*letter - 1) as u64
        });""")],"C01 C02"),
("key-from-letters-or",[(K,"            data += (*letter - 1) as u64;","            data |= (*letter - 1) as u64;")],"C01 C02"),
("key-concat-match",[(K,"""            data: if self.size() == 0 {
                // The shift below could be by all 64 bits if other is a word of maximal length
                other.data()
            } else {
                (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
            }
        }""","""            data: Self::joined(self, other)
        }"""),(K,"    pub const fn concatenate(","""    const fn joined(a: &Self, b: &Self) -> u64
    {
        if a.size() == 0 {
            return b.data();
        }
        let shift = b.size() * Self::bits_per_letter();
        (a.data() << shift) | b.data()
    }

    pub const fn concatenate(""")],"C01 C02"),
("key-to-letters-map",[(K,"""        let mut result = Vec::with_capacity(self.size() as usize);

        for i in 0..(self.size()) {
            result.push(self.get_letter( i));
        }
        debug_assert_eq!(result.len(), self.size() as DimensionType);
        result""","""        (0..self.size()).map(|i| self.get_letter(i)).collect()""")],"C01 C02"),
("key-to-letters-while",[(K,"""        for i in 0..(self.size()) {
            result.push(self.get_letter( i));
        }""","""        let mut pos = 0;
        while pos < self.size() {
            result.push(self.get_letter(pos));
            pos += 1;
        }""")],"C01 C02"),
("key-iter-early",[(K,"""        if self.index == self.key.size() {
            None
        } else {
            self.index += 1;
            Some(self.key.get_letter(self.key.size() - self.index ))
        }""","""        let size = self.key.size();
        if self.index >= size {
            return None;
        }
        let letter = self.key.get_letter(size - self.index - 1);
        self.index += 1;
        Some(letter)""")],"C01"),
("key-debug-sep",[(K,"""            if i > 0 {
                write!(f, ", {}", self.get_letter(i))?;
            } else {
                write!(f, "{}", self.get_letter(i))?;
            }""","""            if i != 0 {
                write!(f, ", ")?;
            }
            write!(f, "{}", self.get_letter(i))?;""")],"C23"),
("basis-k2i-for",[(B,"""        let mut i = key.size();
        let size = key.size();
        while i >= 1 {
            i -= 1;
            result *= NLETTERS as DimensionType;
            result += key.get_letter( i) as DimensionType;
        }""","""        for i in (0..key.size()).rev() {
            result = result * (NLETTERS as DimensionType) + key.get_letter(i) as DimensionType;
        }""")],"C03 C04 C06 C07"),
("basis-k2i-size",[(B,"""        let mut i = key.size();
        let size = key.size();
        while i >= 1 {""","""        let size = key.size();
        let mut i = size;
        while i > 0 {""")],"C03 C08"),
("basis-i2k-noshort",[(B,"""        if index == 0 {
            return Self::KeyType::new();
        } else if index <= NLETTERS as DimensionType {
            return Self::KeyType::from_letter(index as LetterType);
        }

""","")],"C03"),
("basis-i2k-loop",[(B,"""        while pos > 0 {
            pos -= 1;
            result.push_front_raw((pos % FACTOR) as LetterType);
            pos /= FACTOR;
        }
""","""        loop {
            if pos == 0 {
                break;
            }
            let digit = (pos - 1) % FACTOR;
            result.push_front_raw(digit as LetterType);
            pos = (pos - 1) / FACTOR;
        }
""")],"C03"),
("basis-start-for",[(B,"""        let mut result = 0;
        let mut i = 0;
        while i < deg {
            result = result * (NLETTERS as DimensionType) + 1;
            i += 1;
        }
        result""","""        let width = NLETTERS as DimensionType;
        let mut remaining = deg;
        let mut result = 0;
        while remaining > 0 {
            result = width * result + 1;
            remaining -= 1;
        }
        result""")],"C03 C04 C13"),
("basis-start-rec",[(B,"""        let mut result = 0;
        let mut i = 0;
        while i < deg {
            result = result * (NLETTERS as DimensionType) + 1;
            i += 1;
        }
        result""","""        if deg == 0 {
            0
        } else {
            Self::start_of_degree(deg - 1) * (NLETTERS as DimensionType) + 1
        }""")],"C03 C04 C13"),
("basis-i2d-loop",[(B,"""        if *index >= Self::start_of_degree(deg) && *index < Self::start_of_degree(deg+1) {
            deg
        } else {
            Self::index_to_degree_impl(index, deg+1)
        }""","""        let mut d = deg;
        while *index >= Self::start_of_degree(d + 1) {
            d += 1;
        }
        d""")],"C04 C07 C11"),
("basis-i2d-direct",[(B,"""        if *index == 0 {
            0
        } else if 1 <= *index && *index <= NLETTERS as DimensionType {
            1
        } else if Self::start_of_degree(2) <= *index && *index < Self::start_of_degree(3) {
            2
        } else {
            Self::index_to_degree_impl(index, 3)
        }""","""        Self::index_to_degree_impl(index, 0)""")],"C04 C11"),
("basis-cmp-then",[(B,"""        match Ord::cmp(&lhs.size(), &rhs.size()) {
            Ordering::Equal => Ord::cmp(&lhs.data(), &rhs.data()),
            unequal => unequal
        }""","""        lhs.size().cmp(&rhs.size()).then(lhs.data().cmp(&rhs.data()))""")],"C05"),
("basis-cmp-if",[(B,"""        match Ord::cmp(&lhs.size(), &rhs.size()) {
            Ordering::Equal => Ord::cmp(&lhs.data(), &rhs.data()),
            unequal => unequal
        }""","""        if lhs.size() != rhs.size() {
            return Ord::cmp(&lhs.size(), &rhs.size());
        }
        Ord::cmp(&lhs.data(), &rhs.data())""")],"C05"),
("iter-while",[(I,"""            loop {
                if letter_i == current.size() {
                    if letter_i == self.max_depth {
                        self.current = None;
                    } else {
                        current.push_front(1);
                    }
                    break;
                }

                let letter = current.get_letter(letter_i);
                if letter == (NLETTERS as LetterType) {
                    current.set_letter(letter_i, 1);
                    letter_i += 1;
                } else {
                    current.set_letter(letter_i, letter + 1);
                    break;
                }
            }""","""            while letter_i < current.size() && current.get_letter(letter_i) == NLETTERS as LetterType {
                current.set_letter(letter_i, 1);
                letter_i += 1;
            }
            if letter_i < current.size() {
                let letter = current.get_letter(letter_i);
                current.set_letter(letter_i, letter + 1);
            } else if letter_i == self.max_depth {
                self.current = None;
            } else {
                current.push_front(1);
            }""")],"C06"),
("iter-question",[(I,"""        if let Some(current) = self.current.as_mut() {
            let this_key""","""        if self.current.is_none() {
            return None;
        }
        if let Some(current) = self.current.as_mut() {
            let this_key""")],"C06"),
("dense-clone-slice",[(D,"""        Self(match &self.0 {
            Owned(v) => Owned(v.clone()),
            Borrowed(v) => Owned(v.to_vec()),
            BorrowedMut(v) => Owned(v.to_vec())
        }, PhantomData)""","""        Self::from(self.as_slice().to_vec())""")],"C11"),
("dense-size-slice",[(D,"""        match &self.0 {
            Owned(v) => v.len(),
            BorrowedMut(v) => v.len(),
            Borrowed(v) => v.len()
        }""","""        self.as_slice().len()""")],"C07 C08 C09 C11"),
("dense-eq-slice",[(D,"""        let a = match &self.0 {
            Owned(v) => v.as_slice(),
            BorrowedMut(v) => v,
            Borrowed(v ) => v
        };

        let b = match &other.0 {
            Owned(ref v) => v.as_slice(),
            BorrowedMut(v) => v,
            Borrowed(v ) => v
        };

        a == b""","""        self.as_slice() == other.as_slice()""")],"C11"),
("dense-fks-safe",[(D,"""        unsafe {
            // We have just created the vector to have at least size+1 elements
            // So this is safe
            *new_vect.as_mut_slice()
                .get_unchecked_mut(Self::BasisType::key_to_index(&k)) = scalar.into();
        }""","""        let index = Self::BasisType::key_to_index(&k);
        new_vect.as_mut_slice()[index] = scalar.into();""")],"C07 C14 C16"),
("dense-fi-for",[(D,"""        let mut vec: Vec<(DimensionType, Self::ScalarType)> = iterator.into_iter()
            .map(|(k, s)| { (Self::BasisType::key_to_index(&k), s) })
            .collect();
""","""        let mut vec: Vec<(DimensionType, Self::ScalarType)> = Vec::new();
        for (k, s) in iterator {
            vec.push((Self::BasisType::key_to_index(&k), s));
        }
""")],"C07 C14"),
("dense-fi-max",[(D,"""        vec.sort_by(|(i1, _v1), (i2, _v2)| { cmp::Ord::cmp(i1, i2) });
        let dimension = Self::BasisType::vector_dimension_for_index( vec.last().unwrap().0);""","""        let largest = vec.iter().map(|(i, _)| *i).max().unwrap();
        let dimension = Self::BasisType::vector_dimension_for_index(largest);""")],"C07 C14"),
("dense-fi-key",[(D,"vec.sort_by(|(i1, _v1), (i2, _v2)| { cmp::Ord::cmp(i1, i2) });","vec.sort_by_key(|(i, _v)| *i);")],"C07 C14"),
("dense-fi-slice",[(D,"""        unsafe {
            for (i, v) in vec.into_iter() {
                Self::ScalarType::add_inplace(result.as_mut_slice().get_unchecked_mut(i), &v);
            }
        }""","""        let data = result.as_mut_slice();
        for (i, v) in vec {
            Self::ScalarType::add_inplace(&mut data[i], &v);
        }""")],"C07 C14"),
("dense-get-ref",[(D,"        self.as_slice().get(B::key_to_index(key.borrow()))","        let index = B::key_to_index(key.borrow());\n        let data = self.as_slice();\n        if index < data.len() {\n            Some(&data[index])\n        } else {\n            None\n        }")],"C08"),
("dense-insert-else",[(D,"""        if idx >= self.size() {
            self.resize(B::vector_dimension_for_key(key));
        }
        self.as_mut_slice()[idx] = value.into();""","""        let new_value = value.into();
        if self.size() <= idx {
            let new_dim = B::vector_dimension_for_key(key);
            self.resize(new_dim);
        }
        let slot = &mut self.as_mut_slice()[idx];
        *slot = new_value;""")],"C08 C12"),
("dense-neg-itermut",[(D,"        for val in self.as_mut_slice() {\n            *val = Self::ScalarType::uminus(val);\n        }","        self.as_mut_slice().iter_mut().for_each(|val| *val = Self::ScalarType::uminus(val));")],"C09"),
("dense-neg-index",[(D,"        for val in self.as_mut_slice() {\n            *val = Self::ScalarType::uminus(val);\n        }","        let data = self.as_mut_slice();\n        for i in 0..data.len() {\n            data[i] = Self::ScalarType::uminus(&data[i]);\n        }")],"C09"),
("dense-add-index",[(D,"""        for (lhs, rhs) in self.as_mut_slice().iter_mut().zip(lhs_vec.as_slice()) {
            Self::ScalarType::add_inplace(lhs, rhs);
        }""","""        let rhs = lhs_vec.as_slice();
        let lhs = self.as_mut_slice();
        for i in 0..rhs.len() {
            Self::ScalarType::add_inplace(&mut lhs[i], &rhs[i]);
        }""")],"C09 C10 C16"),
("dense-add-nomake",[(D,"""        let lhs_vec = other.borrow();

        if let Borrowed(v) = self.0 {
            self.0 = Owned(v.to_vec());
        }

        if lhs_vec.size() > self.size() {""","""        let lhs_vec = other.borrow();
        let rhs_size = lhs_vec.size();

        if rhs_size > self.size() {""")],"C09"),
("dense-sub-helper",[(D,"""        let lhs_vec = other.borrow();

        if lhs_vec.size() > self.size() {
            self.resize(lhs_vec.size());
        }

        for (lhs, rhs) in self.as_mut_slice().iter_mut().zip(lhs_vec.as_slice()) {
            Self::ScalarType::sub_inplace(lhs, rhs);
        }
""","""        let rhs_vec = other.borrow();
        self.fit(rhs_vec.size());

        for (a, b) in self.as_mut_slice().iter_mut().zip(rhs_vec.as_slice().iter()) {
            Self::ScalarType::sub_inplace(a, b);
        }
"""),(D,"impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {\n\n    pub fn new()","impl<'a, B: OrderedBasis + 'static, S: CoefficientField + 'static> SimpleDenseVector<'a, B, S> {\n\n    fn fit(&mut self, size: DimensionType)\n    {\n        if size > self.size() {\n            self.resize(size);\n        }\n    }\n}\n\nimpl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {\n\n    pub fn new()")],"C09 C10"),
("dense-mul-iter",[(D,"""        for lhs in self.as_mut_slice() {
            Self::ScalarType::mul_inplace(lhs, &val);
        }""","""        for lhs in self.as_mut_slice().iter_mut() {
            let product = Self::ScalarType::mul(lhs, &val);
            *lhs = product;
        }""")],"C09"),
("dense-degree-if",[(D,"""        let size = self.size();
        match self.size() {
            i if i == 0 => 0,
            i => <B as OrderedBasisWithDegree>::index_to_degree(i - 1)
        }
""","""        let size = self.size();
        if size == 0 {
            return 0;
        }
        <B as OrderedBasisWithDegree>::index_to_degree(size - 1)
""")],"C11 C13"),
("dense-resize-arms",[(D,"""            BorrowedMut(_) | Borrowed(_) => Self::to_owned_with_size(self, Some(new_dim))""","""            BorrowedMut(_) => self.to_owned_with_size(Some(new_dim)),
            Borrowed(_) => self.to_owned_with_size(Some(new_dim))""")],"C11"),
("dense-clear-iflet",[(D,"""        match &mut self.0 {
            Owned(v) => v.clear(),
            BorrowedMut(v) => {v.fill(S::ZERO)},
            Borrowed(_) => self.0 = Owned(Vec::new())
        };""","""        match &mut self.0 {
            Owned(v) => { v.truncate(0); },
            BorrowedMut(v) => { for x in v.iter_mut() { *x = S::ZERO; } },
            Borrowed(_) => { self.0 = Owned(vec![]); }
        }""")],"C11"),
("dense-swap-replace",[(D,"        mem::swap(&mut self.0, &mut other.borrow_mut().0);","        let that = other.borrow_mut();\n        mem::swap(&mut that.0, &mut self.0);")],"C11"),
("vec-add-order",[(V,"""        let mut result = self.to_owned();
        result.borrow_mut().add_inplace(other.borrow());
        result""","""        let rhs = other.borrow();
        let mut sum = self.to_owned();
        sum.add_inplace(rhs);
        sum""")],"C10 C19"),
("vec-addmul-temp",[(V,"        self.add_inplace(other.borrow().scalar_rmultiply(scalar))","        let scaled = other.borrow().scalar_rmultiply(scalar);\n        self.add_inplace(scaled);\n        self")],"C10"),
("vec-rmul-inline",[(V,"        self.scalar_lmultiply(scalar)\n","        let mut out = self.to_owned();\n        out.scalar_lmultiply_inplace(scalar);\n        out\n")],"C10"),
("ext-match",[(X,"""        if let Some(v) = self.get_mut(key.borrow()) {
            <Self::ScalarType as CoefficientField>::add_inplace(v,  &val.into());
        } else {
            self.insert_single(key.borrow(), val.into());
        }
        self""","""        let scalar = val.into();
        match self.get_mut(key.borrow()) {
            Some(v) => { <Self::ScalarType as CoefficientField>::add_inplace(v, &scalar); }
            None => self.insert_single(key.borrow(), scalar)
        }
        self""")],"C12"),
("ext-helper",[(X,"""        let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::ONE, &val.into());
        if let Some(v) = self.get_mut(key.borrow()) {
            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
        } else {
            self.insert_single(key.borrow().clone(), sca);
        }
        self""","""        let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::ONE, &val.into());
        self.add_scalar_multiply(key, sca)""")],"C12"),
("alg-comm",[(A,"""        let mut result = Self::new();
        let rhs_borrowed = rhs.borrow();
        result.borrow_mut()
            .add_mul(self, rhs_borrowed, to_degree.clone())
            .sub_mul(rhs_borrowed, self, to_degree);
        result""","""        let other = rhs.borrow();
        let mut result = Self::new();
        result.add_mul(self, other, to_degree);
        result.sub_mul(other, self, to_degree);
        result""")],"C15"),
("alg-comm-mul",[(A,"""        let mut result = Self::new();
        let rhs_borrowed = rhs.borrow();
        result.borrow_mut()
            .add_mul(self, rhs_borrowed, to_degree.clone())
            .sub_mul(rhs_borrowed, self, to_degree);
        result""","""        let rhs_borrowed = rhs.borrow();
        let mut result = self.multiply(rhs_borrowed, to_degree.clone());
        result.sub_mul(rhs_borrowed, self, to_degree);
        result""")],"C15"),
("alg-closure-clone",[(A,"""            |v| { v.clone() },
            to_degree
        );
        self""","""            Clone::clone,
            to_degree
        );
        self"""),(A,"            <Self::ScalarType as CoefficientField>::uminus,","            |v| <Self::ScalarType as CoefficientField>::uminus(v),")],"C15"),
("alg-ldiv-via-r",[(A,"""        let sca = scalar.into();
        self.multiply_into_impl(
            rhs.borrow(),
            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
            to_degree
        );
        self
    }

    fn mul_rat_rdiv(""","""        self.mul_rat_rdiv(rhs, scalar, to_degree)
    }

    fn mul_rat_rdiv(""")],"C15"),
("ten-buffer-index",[(T,"""        let mut out_ptr = out.as_mut_ptr();

        for lhs_v in lhs {
            for rhs_v in rhs {
                S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                out_ptr = out_ptr.add(1);
            }
        }""","""        let mut position = 0;

        for lhs_v in lhs {
            for rhs_v in rhs {
                let term = func(&S::mul(lhs_v, rhs_v));
                S::add_inplace(&mut out[position], &term);
                position += 1;
            }
        }""")],"C13 C14 C16"),
("ten-buffer-chunks",[(T,"""        let mut out_ptr = out.as_mut_ptr();

        for lhs_v in lhs {
            for rhs_v in rhs {
                S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                out_ptr = out_ptr.add(1);
            }
        }""","""        for (i, lhs_v) in lhs.iter().enumerate() {
            for (j, rhs_v) in rhs.iter().enumerate() {
                let term = func(&S::mul(lhs_v, rhs_v));
                S::add_inplace(out.get_unchecked_mut(i * rhs.len() + j), &term);
            }
        }""")],"C13 C14"),
("ten-degmin-sat",[(T,"""            // Notice that out_deg >= rhs_deg, out_deg - rhs_deg >= 0
            //cmp::max(0, (out_deg - rhs_deg));
            let lhs_deg_min = {
                if out_deg > rhs_deg {
                    out_deg - rhs_deg
                } else {
                    0
                }
            };
            let lhs_deg_max = cmp::min(out_deg, lhs_deg);

            for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                let rhs_d = out_deg - lhs_d;
                unsafe {""","""            let lhs_deg_min = out_deg.saturating_sub(rhs_deg);
            let lhs_deg_max = cmp::min(out_deg, lhs_deg);

            for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                let rhs_d = out_deg - lhs_d;
                unsafe {""")],"C13 C14 C15"),
("ten-ranges",[(T,"""                let rhs_d = out_deg - lhs_d;
                unsafe {
                    dense_tensor_multiply_into_buffer(
                        self.as_mut_slice()
                            .get_unchecked_mut(
                                TensorBasis::<NLETTERS>::degree_range(out_deg)),
                        lhs_r.as_slice()
                            .get_unchecked(
                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
                        rhs_r.as_slice()
                            .get_unchecked(
                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
                        &mut func
                    );
                }""","""                let rhs_d = out_deg - lhs_d;
                let out_range = TensorBasis::<NLETTERS>::degree_range(out_deg);
                let lhs_range = TensorBasis::<NLETTERS>::degree_range(lhs_d);
                let rhs_range = TensorBasis::<NLETTERS>::degree_range(rhs_d);
                let lhs_level = &lhs_r.as_slice()[lhs_range];
                let rhs_level = &rhs_r.as_slice()[rhs_range];
                let out_level = &mut self.as_mut_slice()[out_range];
                unsafe {
                    dense_tensor_multiply_into_buffer(out_level, lhs_level, rhs_level, &mut func);
                }""")],"C13 C14 C16"),
("ten-resize-let",[(T,"""        if self.as_slice().len() < TensorBasis::<NLETTERS>::start_of_degree(max_deg+1) {
            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
        }
""","""        let needed = TensorBasis::<NLETTERS>::start_of_degree(max_deg + 1);
        if self.as_slice().len() < needed {
            self.resize(needed);
        }
""")],"C13 C14"),
("ten-outer-while",[(T,"""        for out_deg in (0..=max_deg).rev() {
            // Notice that out_deg >= rhs_deg, out_deg - rhs_deg >= 0
            //cmp::max(0, (out_deg - rhs_deg));
            let lhs_deg_min = {
                if out_deg > rhs_deg {
                    out_deg - rhs_deg
                } else {
                    0
                }
            };
            let lhs_deg_max = cmp::min(out_deg, lhs_deg);

            for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                let rhs_d = out_deg - lhs_d;
                unsafe {""","""        let mut levels = max_deg + 1;
        while levels > 0 {
            levels -= 1;
            let out_deg = levels;
            let lhs_deg_min = if out_deg > rhs_deg { out_deg - rhs_deg } else { 0 };
            let lhs_deg_max = cmp::min(out_deg, lhs_deg);

            for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                let rhs_d = out_deg - lhs_d;
                unsafe {""")],"C13 C14"),
("ten-pad-early",[(T,"""    if arg.as_slice().len() < dim {
        let mut result = arg.to_owned();
        result.resize(dim);
        Some(result)
    } else {
        None
    }""","""    if arg.as_slice().len() >= dim {
        return None;
    }
    let mut padded = arg.to_owned();
    padded.resize(dim);
    Some(padded)""")],"C13 C14"),
("ft-exp-unit",[(F,"""        let tunit = Self::from_key(Self::KeyType::new());
        let mut result = Self::from_key(Self::KeyType::new());
        let borrowed_result = result.borrow_mut();

        for i in (1..=Self::MAX_DEGREE).rev() {
            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
            borrowed_result.add_inplace(&tunit);
        }
        result""","""        let tunit = Self::from_key(Self::KeyType::new());
        let mut result = tunit.to_owned();

        for i in (1..=Self::MAX_DEGREE).rev() {
            let divisor = S::RationalType::from_degree(&i);
            result.mul_rat_rdiv(self, divisor, Some(Self::MAX_DEGREE));
            result.add_inplace(&tunit);
        }
        result""")],"C16"),
("ft-exp-while",[(F,"""        for i in (1..=Self::MAX_DEGREE).rev() {
            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
            borrowed_result.add_inplace(&tunit);
        }""","""        let mut i = Self::MAX_DEGREE;
        while i > 0 {
            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
            borrowed_result.add_inplace(&tunit);
            i -= 1;
        }""")],"C16"),
("ft-fmexp-let",[(F,"""            self.mul_rat_rdiv(&x, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
            self.add_inplace(oself);""","""            let to_degree = Self::MAX_DEGREE - i + 1;
            self.mul_rat_rdiv(&x, S::RationalType::from_degree(&i), Some(to_degree)).add_inplace(oself);""")],"C16"),
("ft-log-odd",[(F,"""            if i % 2 == 0 {
                rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
            } else {
                rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
            }""","""            let divisor = Self::RationalType::from_degree(&i);
            if i % 2 == 1 {
                rv.add_scalar_rdivide(&tunit, divisor);
            } else {
                rv.sub_scalar_rdivide(&tunit, divisor);
            }""")],"C16"),
("ft-log-erase",[(F,"""        if let Some(unit) = x.get_mut(kunit) {
            *unit = Self::ScalarType::ZERO.clone();
        }
""","""        x.erase(kunit);
""")],"C16"),
("sp-eq-helper",[(S,"""            match other.0.get(&k) {
                Some(v1) if *v1 != *v => return false,
                Some(_) => continue,
                None => return false
            }""","""            if other.0.get(k) != Some(v) {
                return false;
            }""")],"C25"),
("sp-add-contains",[(S,"""            match self.0.get_mut(k) {
                Some(i) => {
                    let r = S::add_inplace(i, v);
                    if *r == S::ZERO {
                        self.0.remove(k);
                    }
                },
                None => { self.0.insert(k.clone(), v.clone()); }
            };""","""            if let Some(i) = self.0.get_mut(k) {
                S::add_inplace(i, v);
                if *i == S::ZERO {
                    self.0.remove(k);
                }
            } else {
                self.0.insert(k.clone(), v.clone());
            }""")],"C17"),
("sp-neg-for",[(S,"        self.0.iter_mut().for_each(|(k, v)| { *v = S::uminus(v); });","        for (_, v) in self.0.iter_mut() {\n            *v = S::uminus(v);\n        }")],"C17"),
("sp-neg-values",[(S,"        self.0.iter_mut().for_each(|(k, v)| { *v = S::uminus(v); });","        for v in self.0.values_mut() {\n            *v = S::uminus(v);\n        }")],"C17"),
("sp-mul-else",[(S,"""        if s == S::ZERO {
            self.0.clear();
            return self;
        }

        self.0.iter_mut().for_each(move |(_, v)| {
            S::mul_inplace(v, &s);
        });

        self""","""        if s == S::ZERO {
            self.0.clear();
        } else {
            self.0.iter_mut().for_each(|(_, v)| {
                S::mul_inplace(v, &s);
            });
        }

        self""")],"C17"),
("sp-fi-collect",[(S,"""        let mut inner = HashMap::<K, S>::new();

        for (key, val) in iterator.into_iter() {
            inner.insert(key, val);
        }
        SimpleSparseVector::<B, S, K>(inner, PhantomData)""","""        Self(iterator.into_iter().collect(), PhantomData)""")],"C25"),
("fl-inv-one",[(L,"        Self::ONE / arg.borrow()","        let value: &Self = arg.borrow();\n        1.0 / *value")],"C18"),
("fl-add-deref",[(L,"        self + other\n","        *self + *other\n")],"C18"),
("wr-add-temp",[(W,"        self.deref().add(other.borrow().deref()).into()","        let inner = self.deref().add(other.borrow().deref());\n        Self::from(inner)")],"C19"),
("wr-inplace-let",[(W,"""        self.deref_mut().add_inplace(other.borrow().deref());
        self""","""        let rhs = other.borrow().deref();
        let lhs = self.deref_mut();
        lhs.add_inplace(rhs);
        self""")],"C19"),
("hall-sq-loop",[(R,"""        is_squarefree_impl(n, 2)
""","""        let mut base = 2;
        while base * base <= n {
            if n % (base * base) == 0 {
                return false;
            }
            base += 1;
        }
        true
""")],"C20"),
("hall-level-loop",[(R,"""        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType""","""        let mut total = 0;
        let mut divisor = 1;
        while divisor <= depth {
            if depth % divisor == 0 {
                total += hall_set_level_term(width, depth, divisor);
            }
            divisor += 1;
        }
        (total / (depth as SignedDimensionType)) as DimensionType""")],"C20"),
("hall-level-if",[(R,"""        let a;
        let b;

        if level % divisor == 0 {
            a = hall_set_level_term(width, level, divisor);
        } else {
            a = 0;
        }

        if divisor < level {
            b = hall_set_level_size_impl(width, level, divisor+1);
        } else {
            b = 0;
        }

        a + b
    }

    const fn hall_set_level_size(""","""        let term = if level % divisor == 0 {
            hall_set_level_term(width, level, divisor)
        } else {
            0
        };

        if divisor >= level {
            return term;
        }
        term + hall_set_level_size_impl(width, level, divisor + 1)
    }

    const fn hall_set_level_size(""")],"C20 C21"),
("drm-new-map",[(R,"""        let mut inner = Vec::with_capacity(degree as usize);
        for i in 0..(degree as DimensionType) {
            inner.push(hall_set_size(NLETTERS as DimensionType, i));
        }
        Self(inner)""","""        Self((0..degree as DimensionType).map(|i| hall_set_size(NLETTERS as DimensionType, i)).collect())""")],"C21"),
("drm-grow-while",[(R,"""        for d in len..=ureq {
            self.0.push(hall_set_size(NLETTERS as DimensionType, d));
        }
""","""        while self.0.len() <= ureq {
            let d = self.0.len();
            self.0.push(hall_set_size(NLETTERS as DimensionType, d));
        }
""")],"C21"),
("drm-get-ok",[(R,"""        if let Some(v) = self.0.get(deg as usize) {
            Ok(*v)
        } else {
            Err(DegreeOutOfBounds)
        }""","""        match self.0.get(deg as usize) {
            Some(v) => Ok(*v),
            None => Err(DegreeOutOfBounds)
        }""")],"C21"),
("drm-get-okor",[(R,"""        if let Some(v) = self.0.get(deg as usize) {
            Ok(*v)
        } else {
            Err(DegreeOutOfBounds)
        }""","""        self.0.get(deg as usize).copied().ok_or(DegreeOutOfBounds)""")],"C21"),
("drm-find-linear",[(R,"            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)","            let mut deg = 0;\n            while deg < self.0.len() && self.0[deg] < dkey {\n                deg += 1;\n            }\n            Ok(deg as DegreeType)")],"C21"),
("hk-field-helper",[(H,"    const fn get_key(&self) -> LetterType","    const fn field(&self, bits: DegreeType, shift: DegreeType) -> DataType\n    {\n        (self.0 >> shift) & make_mask(bits, 0)\n    }\n\n    const fn get_key(&self) -> LetterType"),
 (H,"((self.0 & make_mask(PARENT_BITS, LPARENT_SHIFT)) >> LPARENT_SHIFT) as LetterType","self.field(PARENT_BITS, LPARENT_SHIFT) as LetterType"),
 (H,"((self.0 & make_mask(PARENT_BITS, RPARENT_SHIFT)) >> RPARENT_SHIFT) as LetterType","self.field(PARENT_BITS, RPARENT_SHIFT) as LetterType")],"C22 C23"),
("hk-make-or",[(H,"        key + mlparent + mrparent + msize","        key | mlparent | mrparent | msize")],"C22"),
]
HS3 = "C24 C26"
RF += [
("hs-details-helper",[(Z,"""    pub fn curr_degree(&self)""","""    fn details(&self, key: DataType) -> ParentInfo
    {
        let (l, r) = self.get_parents(key).unwrap();
        (key, *l as DataType, *r as DataType, self.degree(key).unwrap())
    }

    pub fn curr_degree(&self)"""),
 (Z,"""        if let Some((parent, _)) = self.get_parents(key) {
            let p = *parent as DataType;
            let (l, r) = self.get_parents(p).unwrap();
            Ok((p, *l as DataType, *r as DataType, self.degree(p).unwrap()))""","""        if let Some((parent, _)) = self.get_parents(key) {
            Ok(self.details(*parent as DataType))"""),
 (Z,"""        if let Some((_, parent)) = self.get_parents(key) {
            let p = *parent as DataType;
            let (l, r) = self.get_parents(p).unwrap();
            Ok((p, *l as DataType, *r as DataType, self.degree(p).unwrap()))""","""        if let Some((_, parent)) = self.get_parents(key) {
            Ok(self.details(*parent as DataType))""")],"C26 C24"),
("hs-lparent-key-details",[(Z,"""        if let Some((parent, _)) = self.get_parents(key) {
            let p = *parent as DataType;
            let (l, r) = self.get_parents(p).unwrap();
            Ok((p, *l as DataType, *r as DataType, self.degree(p).unwrap()))""","""        if let Some((parent, _)) = self.get_parents(key) {
            self.key_details(*parent as DataType)""")],"C26"),
("hs-key-match",[(Z,"""        if let Some((l, r)) = self.get_parents(key) {
            Ok((key, *l as DataType, *r as DataType, self.degree(key).unwrap()))
        } else {
            Err(HallSetError::HallSetTooSmall)
        }""","""        match self.get_parents(key) {
            Some(&(l, r)) => {
                let degree = self.degree(key).unwrap();
                Ok((key, l as DataType, r as DataType, degree))
            }
            None => Err(HallSetError::HallSetTooSmall)
        }""")],"C26"),
("hs-key-okor",[(Z,"""        if let Some((l, r)) = self.get_parents(key) {
            Ok((key, *l as DataType, *r as DataType, self.degree(key).unwrap()))
        } else {
            Err(HallSetError::HallSetTooSmall)
        }""","""        let (l, r) = self.get_parents(key).ok_or(HallSetError::HallSetTooSmall)?;
        Ok((key, *l as DataType, *r as DataType, self.degree(key).unwrap()))""")],"C26"),
("hs-key-map",[(Z,"""        if let Some((l, r)) = self.get_parents(key) {
            Ok((key, *l as DataType, *r as DataType, self.degree(key).unwrap()))
        } else {
            Err(HallSetError::HallSetTooSmall)
        }""","""        self.get_parents(key)
            .map(|(l, r)| (key, *l as DataType, *r as DataType, self.degree(key).unwrap()))
            .ok_or(HallSetError::HallSetTooSmall)""")],"C26"),
("hs-letter-contains",[(Z,"Ok(1 <= key && key <= NLETTERS as DataType)","Ok((1..=NLETTERS as DataType).contains(&key))")],"C26"),
("hs-letter-flip",[(Z,"Ok(1 <= key && key <= NLETTERS as DataType)","let outside = key == 0 || key > NLETTERS as DataType;\n        Ok(!outside)")],"C26"),
("hs-range-let",[(Z,"Ok((self.degrees.get(deg)?, self.degrees.get(deg+1)?))","let lower = self.degrees.get(deg)?;\n        let upper = self.degrees.get(deg + 1)?;\n        Ok((lower, upper))")],"C26"),
("hs-range-maperr",[(Z,"Ok((self.degrees.get(deg)?, self.degrees.get(deg+1)?))","let lower = self.degrees.get(deg).map_err(|_| HallSetTooSmall)?;\n        let upper = self.degrees.get(deg + 1).map_err(|_| HallSetTooSmall)?;\n        Ok((lower, upper))")],"C26"),
("hs-range-match",[(Z,"Ok((self.degrees.get(deg)?, self.degrees.get(deg+1)?))","""match self.degrees.get(deg) {
            Ok(lower) => match self.degrees.get(deg + 1) {
                Ok(upper) => Ok((lower, upper)),
                Err(e) => Err(HallSetError::from(e))
            },
            Err(e) => Err(e.into())
        }""")],"C26"),
("hs-lock-inline",[(Z,"""        let inner = self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)?;
        inner.is_letter(key)""","""        self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)?
            .is_letter(key)""")],"C26"),
("hs-lock-match",[(Z,"""        let inner = self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)?;
        inner.is_letter(key)""","""        match self.0.read() {
            Ok(inner) => inner.is_letter(key),
            Err(_) => Err(HallSetError::HallSetReadError)
        }""")],"C26"),
("hs-lock-andthen",[(Z,"""        let inner = self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)?;
        inner.key_details(key)""","""        self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)
            .and_then(|inner| inner.key_details(key))""")],"C26"),
("hs-lock-helper",[(Z,"""        Self(Arc::new(RwLock::new(obj)))
    }""","""        Self(Arc::new(RwLock::new(obj)))
    }

    fn reader(&self) -> Result<std::sync::RwLockReadGuard<'_, dyn HallSet + Send + Sync + 'static>, HallSetError>
    {
        self.0.read().map_err(|_| HallSetError::HallSetReadError)
    }"""),(Z,"""        let inner = self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)?;
        inner.is_letter(key)""","        self.reader()?.is_letter(key)"),(Z,"""        let inner = self.0.read()
            .map_err(|_| HallSetError::HallSetReadError)?;
        inner.key_details(key)""","        let inner = self.reader()?;\n        inner.key_details(key)")],"C26 C24"),
("hs-grow-max",[(Z,"        while self.current_degree < new_degree {\n            self.current_degree += 1;","        if self.current_degree < new_degree {\n            self.current_degree = new_degree;")],"C26 C24"),
("hs-grow-for",[(Z,"        while self.current_degree < new_degree {\n            self.current_degree += 1;","        for degree in self.current_degree..new_degree {\n            self.current_degree = degree + 1;")],"C26 C24"),
("hs-new-local",[(Z,"""        Self {
            current_degree:0,
            set: vec![(0, 0)],
            reverse: HashMap::new(),
            degrees: DegreeRangeMap::new(starting_size_for_width(NLETTERS))
        }""","""        let degrees = DegreeRangeMap::new(starting_size_for_width(NLETTERS));
        let mut set = Vec::new();
        set.push((0, 0));
        Self { current_degree: 0, set, reverse: HashMap::new(), degrees }""")],"C26 C24"),
("hs-start-if",[(Z,"""    match letters {
        2 => 30,
        3..=5 => 20,
        6..=10 => 8,
        11..=20 => 3,
        _ => 2
    }""","""    if letters == 2 {
        30
    } else if letters >= 3 && letters <= 5 {
        20
    } else if letters >= 6 && letters <= 10 {
        8
    } else if letters >= 11 && letters <= 20 {
        3
    } else {
        2
    }""")],"C26 C24"),
("hs-parents-bounds",[(Z,"        self.set.get(key as usize)\n","        let index = key as usize;\n        if index < self.set.len() { Some(&self.set[index]) } else { None }\n")],"C26"),
("hs-degree-match",[(Z,"        self.degrees.find_deg(key).ok()\n","        match self.degrees.find_deg(key) {\n            Ok(degree) => Some(degree),\n            Err(_) => None\n        }\n")],"C26"),
("ghs-unwrap-or",[(Z,"""        if let Some(deg) = pre_grow {
            inner.grow_up(deg);
        } else {
            inner.grow_up(1);
        }
""","""        inner.grow_up(pre_grow.unwrap_or(1));
""")],"C24"),
("ghs-early-return",[(Z,"    if let Some(val) = cached {\n        val\n    } else {\n        let mut inner","    if let Some(val) = cached {\n        return val;\n    }\n\n    {\n        let mut inner")],"C24"),
("ghs-build-helper",[(Z,"""        let mut inner = HallSetInner::<NLETTERS>::new();

        if let Some(deg) = pre_grow {
            inner.grow_up(deg);
        } else {
            inner.grow_up(1);
        }

        let new_hs = HallSetObject::new(inner);
        HALL""","""        let new_hs = build_hall_set::<NLETTERS>(pre_grow);
        HALL"""),(Z,"pub fn get_hall_set","""fn build_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
{
    let mut inner = HallSetInner::<NLETTERS>::new();
    inner.grow_up(match pre_grow { Some(deg) => deg, None => 1 });
    HallSetObject::new(inner)
}

pub fn get_hall_set""")],"C24"),
("ghs-lookup-helper",[(Z,"""    let cached = HALL_SET_CACHE.read()
        .expect("Error retrieving from hall set cache")
        .get(&NLETTERS)
        .cloned();
""","""    let cached = cached_hall_set(NLETTERS);
"""),(Z,"pub fn get_hall_set","""fn cached_hall_set(letters: DegreeType) -> Option<HallSetObject>
{
    HALL_SET_CACHE.read()
        .expect("Error retrieving from hall set cache")
        .get(&letters)
        .cloned()
}

pub fn get_hall_set""")],"C24"),
("ghs-guard-block",[(Z,"""    let cached = HALL_SET_CACHE.read()
        .expect("Error retrieving from hall set cache")
        .get(&NLETTERS)
        .cloned();
""","""    let cached = {
        let cache = HALL_SET_CACHE.read().expect("Error retrieving from hall set cache");
        cache.get(&NLETTERS).cloned()
    };
""")],"C24"),
("ghs-insert-checked",[(Z,"""        HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
            .entry(NLETTERS)
            .or_insert(new_hs)
            .clone()
""","""        let mut cache = HALL_SET_CACHE.write().expect("Could not get write access to hall set cache");
        match cache.get(&NLETTERS) {
            Some(other) => other.clone(),
            None => {
                cache.insert(NLETTERS, new_hs.clone());
                new_hs
            }
        }
""")],"C24"),
("ghs-or-insert-with",[(Z,"""            .or_insert(new_hs)
            .clone()
""","""            .or_insert_with(move || new_hs)
            .clone()
""")],"C24"),
# keys
("k-mask-const",[(K,"""        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);
        let mut data = self.data();
        data &= mask;
        data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
        self.data = data;""","""        let shift = Self::bits_per_letter() * letter;
        let cleared = self.data() & !(Self::letter_mask() << shift);
        self.data = cleared + ((new_val as u64 - 1) << shift);""")],"C01 C06"),
("k-assert",[(K,"""        if letter >= self.size() {
            panic!("Index {} exceeds length of word", letter);
        }""","""        assert!(letter < self.size(), "Index {} exceeds length of word", letter);""")],"C01 C06"),
("k-from-assert",[(K,"""        if letters.len() > (Self::max_depth() as usize) {
            panic!("Number of letters exceeds maximum depth");
        }
        let mut data = 0;
""","""        assert!(letters.len() <= Self::max_depth() as usize, "Number of letters exceeds maximum depth");
        let bits = Self::bits_per_letter();
        let mut data = 0u64;
""")],"C01 C02"),
("k-from-push",[(K,"""        let mut data = 0;

        for letter in letters {
            debug_assert!(*letter >= 1 && *letter <= NLetters);
            data <<= Self::bits_per_letter();
            data += (*letter - 1) as u64;
            //result.push_front(*letter);
        }
        Self {
            size: letters.len() as u32,
            data
        }""","""        let mut result = Self::new();
        for letter in letters.iter().rev() {
            result.push_front(*letter);
        }
        result""")],"C01"),
("k-push-inline",[(K,"""        let mut data = self.data();
        data += ((letter as u64) & Self::letter_mask()) << (self.size()*Self::bits_per_letter());
        self.data = data;
        self.update_size(self.size() + 1);
        self""","""        let shift = self.size * Self::bits_per_letter();
        let masked = (letter as u64) & Self::letter_mask();
        self.data += masked << shift;
        self.size += 1;
        self""")],"C01 C03 C06"),
("k-tolet-collect",[(K,"""        let mut result = Vec::with_capacity(self.size() as usize);

        for i in 0..(self.size()) {
            result.push(self.get_letter( i));
        }
        debug_assert_eq!(result.len(), self.size() as DimensionType);
        result""","""        let letters: Vec<LetterType> = (0..self.size()).map(|i| self.get_letter(i)).collect();
        debug_assert_eq!(letters.len(), self.size() as DimensionType);
        letters""")],"C01"),
("k-cat-early",[(K,"""        Self {
            size: self.size() + other.size(),
            data: if self.size() == 0 {
                // The shift below could be by all 64 bits if other is a word of maximal length
                other.data()
            } else {
                (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
            }
        }""","""        let size = self.size() + other.size();
        if self.size() == 0 {
            // The shift below could be by all 64 bits if other is a word of maximal length
            return Self { size, data: other.data() };
        }
        let shifted = self.data() << (other.size() * Self::bits_per_letter());
        Self { size, data: shifted | other.data() }""")],"C02"),
("k-iter-lt",[(K,"""        if self.index == self.key.size() {
            None
        } else {
            self.index += 1;
            Some(self.key.get_letter(self.key.size() - self.index ))
        }""","""        let size = self.key.size();
        if self.index < size {
            self.index += 1;
            return Some(self.key.get_letter(size - self.index));
        }
        None""")],"C01"),
("k-dbg-first",[(K,"""        for i in 0..self.size() {
            if i > 0 {
                write!(f, ", {}", self.get_letter(i))?;
            } else {
                write!(f, "{}", self.get_letter(i))?;
            }
        }
        write!(f, ")")""","""        for (i, letter) in self.to_letters().iter().enumerate() {
            if i != 0 {
                f.write_str(", ")?;
            }
            write!(f, "{}", letter)?;
        }
        f.write_str(")")""")],"C23"),
("b-k2i-fold",[(B,"""        let mut result = 0;

        let mut i = key.size();
        let size = key.size();
        while i >= 1 {
            i -= 1;
            result *= NLETTERS as DimensionType;
            result += key.get_letter( i) as DimensionType;
        }

        result""","""        (0..key.size()).rev().fold(0, |acc, i| acc * NLETTERS as DimensionType + key.get_letter(i) as DimensionType)""")],"C03 C05"),
("b-i2k-match",[(B,"""        if index == 0 {
            return Self::KeyType::new();
        } else if index <= NLETTERS as DimensionType {
            return Self::KeyType::from_letter(index as LetterType);
        }

""","""        match index {
            0 => return Self::KeyType::new(),
            i if i <= NLETTERS as DimensionType => return Self::KeyType::from_letter(i as LetterType),
            _ => {}
        }
""")],"C03"),
("b-range-let",[(B,"""        Self::start_of_degree(deg)..Self::start_of_degree(deg+1)""","""        let begin = Self::start_of_degree(deg);
        let end = begin * (NLETTERS as DimensionType) + 1;
        begin..end""")],"C04 C13"),
("b-i2d-range",[(B,"""        if *index >= Self::start_of_degree(deg) && *index < Self::start_of_degree(deg+1) {
            deg
        } else {
            Self::index_to_degree_impl(index, deg+1)
        }""","""        let range = Self::degree_range(deg);
        if range.start <= *index && *index < range.end {
            return deg;
        }
        Self::index_to_degree_impl(index, deg + 1)""")],"C04"),
("b-dim-shared",[(B,"""        Self::start_of_degree(Self::degree(key) + 1)""","""        let degree = Self::degree(key);
        Self::degree_range(degree).end""")],"C04 C07 C14"),
("b-cmp-tuple",[(B,"""        match Ord::cmp(&lhs.size(), &rhs.size()) {
            Ordering::Equal => Ord::cmp(&lhs.data(), &rhs.data()),
            unequal => unequal
        }""","""        (lhs.size(), lhs.data()).cmp(&(rhs.size(), rhs.data()))""")],"C05"),
("i-advance-helper",[(I,"""            let mut letter_i = 0;
            loop {
                if letter_i == current.size() {
                    if letter_i == self.max_depth {
                        self.current = None;
                    } else {
                        current.push_front(1);
                    }
                    break;
                }

                let letter = current.get_letter(letter_i);
                if letter == (NLETTERS as LetterType) {
                    current.set_letter(letter_i, 1);
                    letter_i += 1;
                } else {
                    current.set_letter(letter_i, letter + 1);
                    break;
                }
            }
            Some(this_key)""","""            if !Self::advance(current, self.max_depth) {
                self.current = None;
            }
            Some(this_key)"""),(I,"""    pub fn starting_from(""","""    fn advance(current: &mut TensorKey<NLETTERS>, max_depth: DegreeType) -> bool
    {
        let mut letter_i = 0;
        while letter_i < current.size() {
            let letter = current.get_letter(letter_i);
            if letter != (NLETTERS as LetterType) {
                current.set_letter(letter_i, letter + 1);
                return true;
            }
            current.set_letter(letter_i, 1);
            letter_i += 1;
        }
        if letter_i == max_depth {
            return false;
        }
        current.push_front(1);
        true
    }

    pub fn starting_from(""")],"C06"),
("i-take",[(I,"""        if let Some(current) = self.current.as_mut() {
            let this_key = current.clone();
""","""        if let Some(mut current) = self.current.take() {
            let this_key = current.clone();
"""),(I,"""                    if letter_i == self.max_depth {
                        self.current = None;
                    } else {
                        current.push_front(1);
                    }
                    break;""","""                    if letter_i != self.max_depth {
                        current.push_front(1);
                        self.current = Some(current);
                    }
                    break;"""),(I,"""                    current.set_letter(letter_i, letter + 1);
                    break;""","""                    current.set_letter(letter_i, letter + 1);
                    self.current = Some(current);
                    break;""")],"C06"),
# dense
("d-own-helper",[(D,"""        if let Borrowed(v) = self.0 {
            self.0 = Owned(v.to_vec());
        }

        match &mut self.0 {
            Owned(v) => v.as_mut_slice(),""","""        self.make_writable();

        match &mut self.0 {
            Owned(v) => v.as_mut_slice(),"""),(D,"""    pub(crate) fn as_slice(&self) -> &[S]""","""    fn make_writable(&mut self)
    {
        if let Borrowed(v) = self.0 {
            self.0 = Owned(v.to_vec());
        }
    }

    pub(crate) fn as_slice(&self) -> &[S]""")],"C07 C08 C09"),
("d-fks-index",[(D,"""        let size = Self::BasisType::vector_dimension_for_key(&k);
        let mut new_vect = Self::from_dimension(size);
        unsafe {""","""        let index = Self::BasisType::key_to_index(&k);
        let mut new_vect = Self::from_dimension(Self::BasisType::vector_dimension_for_key(&k));
        unsafe {"""),(D,"""            *new_vect.as_mut_slice()
                .get_unchecked_mut(Self::BasisType::key_to_index(&k)) = scalar.into();""","""            *new_vect.as_mut_slice().get_unchecked_mut(index) = scalar.into();""")],"C07 C14"),
("d-fks-vec",[(D,"""        let mut new_vect = Self::from_dimension(size);
        unsafe {
            // We have just created the vector to have at least size+1 elements
            // So this is safe
            *new_vect.as_mut_slice()
                .get_unchecked_mut(Self::BasisType::key_to_index(&k)) = scalar.into();
        }
        new_vect""","""        let mut coefficients = vec![S::ZERO; size];
        coefficients[Self::BasisType::key_to_index(&k)] = scalar.into();
        Self::from(coefficients)""")],"C07 C14"),
("d-fi-iflet",[(D,"""        let dimension = Self::BasisType::vector_dimension_for_index( vec.last().unwrap().0);

        let mut result = Self::from_dimension(dimension);
""","""        let (largest, _) = vec[vec.len() - 1].clone();
        let mut result = Self::from_dimension(Self::BasisType::vector_dimension_for_index(largest));
""")],"C07 C14"),
("d-fi-slot",[(D,"""            for (i, v) in vec.into_iter() {
                Self::ScalarType::add_inplace(result.as_mut_slice().get_unchecked_mut(i), &v);
            }""","""            let slice = result.as_mut_slice();
            for (i, v) in &vec {
                let slot = slice.get_unchecked_mut(*i);
                slot.add_inplace(v);
            }""")],"C07 C14"),
("d-ins-resize",[(D,"""        let idx = B::key_to_index(key);

        if idx >= self.size() {
            self.resize(B::vector_dimension_for_key(key));
        }
        self.as_mut_slice()[idx] = value.into();""","""        let idx = B::key_to_index(key);
        let needed = B::vector_dimension_for_key(key);

        if self.size() <= idx {
            self.resize(needed);
        }
        let slot = &mut self.as_mut_slice()[idx];
        *slot = value.into();""")],"C08 C12"),
("d-erase-match",[(D,"""        if let Some(v) = self.get_mut(key) {
            *v = S::ZERO;
        }""","""        match self.get_mut(key) {
            Some(v) => *v = S::ZERO,
            None => {}
        }""")],"C08"),
("d-erase-index",[(D,"""        if let Some(v) = self.get_mut(key) {
            *v = S::ZERO;
        }""","""        let idx = B::key_to_index(key.borrow());
        if idx < self.size() {
            self.as_mut_slice()[idx] = S::ZERO;
        }""")],"C08"),
("d-grow-helper",[(D,"""        if lhs_vec.size() > self.size() {
            self.resize(lhs_vec.size());
        }

        for (lhs, rhs) in self.as_mut_slice().iter_mut().zip(lhs_vec.as_slice()) {
            Self::ScalarType::sub_inplace(lhs, rhs);
        }""","""        let required = lhs_vec.size();
        if self.size() < required {
            self.resize(required);
        }

        let rhs_slice = lhs_vec.as_slice();
        for (i, rhs) in rhs_slice.iter().enumerate() {
            Self::ScalarType::sub_inplace(&mut self.as_mut_slice()[i], rhs);
        }""")],"C09 C10"),
("d-zip-foreach",[(D,"""        for (lhs, rhs) in self.as_mut_slice().iter_mut().zip(lhs_vec.as_slice()) {
            Self::ScalarType::add_inplace(lhs, rhs);
        }""","""        self.as_mut_slice().iter_mut().zip(lhs_vec.as_slice().iter()).for_each(|(lhs, rhs)| {
            lhs.add_inplace(rhs);
        });""")],"C09"),
("d-neg-foreach",[(D,"""        for val in self.as_mut_slice() {
            *val = Self::ScalarType::uminus(val);
        }""","""        self.as_mut_slice().iter_mut().for_each(|val| *val = val.uminus());""")],"C09"),
("d-mul-noown",[(D,"""        let val = scalar.into();

        if let Borrowed(v) = self.0 {
            self.0 = Owned(v.to_vec());
        }

        for lhs in""","""        let val: S = scalar.into();

        for lhs in""")],"C09"),
("d-deg-sat",[(D,"""        let size = self.size();
        match self.size() {
            i if i == 0 => 0,
            i => <B as OrderedBasisWithDegree>::index_to_degree(i - 1)
        }
""","""        self.size()
            .checked_sub(1)
            .map_or(0, <B as OrderedBasisWithDegree>::index_to_degree)
""")],"C11 C13"),
("d-deg-early",[(D,"""        let size = self.size();
        match self.size() {
            i if i == 0 => 0,
            i => <B as OrderedBasisWithDegree>::index_to_degree(i - 1)
        }
""","""        let size = self.size();
        if size == 0 {
            return 0;
        }
        <B as OrderedBasisWithDegree>::index_to_degree(size - 1)
""")],"C11 C13"),
("d-clone-own",[(D,"""        Self(match &self.0 {
            Owned(v) => Owned(v.clone()),
            Borrowed(v) => Owned(v.to_vec()),
            BorrowedMut(v) => Owned(v.to_vec())
        }, PhantomData)""","""        let data = match &self.0 {
            Owned(v) => v.clone(),
            Borrowed(v) => v.to_vec(),
            BorrowedMut(v) => v.to_vec()
        };
        Self::from(data)""")],"C11"),
("d-toown-slice",[(D,"""        Self::from(Vec::from(self.as_slice()))""","""        let coefficients = self.as_slice().to_vec();
        Self::from(coefficients)""")],"C11 C10"),
("d-eq-self",[(D,"""        let a = match &self.0 {
            Owned(v) => v.as_slice(),
            BorrowedMut(v) => v,
            Borrowed(v ) => v
        };

        let b = match &other.0 {
            Owned(ref v) => v.as_slice(),
            BorrowedMut(v) => v,
            Borrowed(v ) => v
        };

        a == b""","""        let (a, b) = (self.as_slice(), other.as_slice());
        a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y)""")],"C11"),
("d-clear-assign",[(D,"""        match &mut self.0 {
            Owned(v) => v.clear(),
            BorrowedMut(v) => {v.fill(S::ZERO)},
            Borrowed(_) => self.0 = Owned(Vec::new())
        };""","""        match &mut self.0 {
            Owned(v) => v.truncate(0),
            BorrowedMut(v) => {
                for x in v.iter_mut() {
                    *x = S::ZERO;
                }
            },
            Borrowed(_) => self.0 = Owned(vec![])
        };""")],"C11"),
# vector / ext / algebra
("v-add-chain",[(V,"""        result.borrow_mut().sub_inplace(other.borrow());
        result""","""        result.sub_inplace(other.borrow());
        return result;""")],"C10"),
("v-rdiv-into",[(V,"""        let mut result = self.to_owned();
        result.borrow_mut().scalar_rdivide_inplace(rational.into());
        result""","""        let divisor: Self::RationalType = rational.into();
        let mut quotient = self.to_owned();
        quotient.scalar_rdivide_inplace(divisor);
        quotient""")],"C10"),
("v-fused-temp",[(V,"""        self.sub_inplace(other.borrow().scalar_ldivide(rational))""","""        let scaled = other.borrow().scalar_ldivide(rational);
        self.sub_inplace(&scaled);
        self""")],"C10 C16"),
("x-val-first",[(X,"""        if let Some(v) = self.get_mut(key.borrow()) {
            <Self::ScalarType as CoefficientField>::add_inplace(v,  &val.into());
        } else {
            self.insert_single(key.borrow(), val.into());
        }
        self""","""        let key = key.borrow();
        let val: Self::ScalarType = val.into();
        match self.get_mut(key) {
            Some(v) => {
                v.add_inplace(&val);
            }
            None => self.insert_single(key, val)
        }
        self""")],"C12"),
("x-sub-neg",[(X,"""        if let Some(v) = self.get_mut(key.borrow()) {
            <Self::ScalarType as CoefficientField>::sub_inplace(v, &val.into());
        } else {
            self.insert_single(key.borrow(), <Self::ScalarType as CoefficientField>::uminus(&val.into()));
        }
        self""","""        let negated = val.into().uminus();
        self.add_scalar_multiply(key, negated)""")],"C12"),
("a-inplace-assign",[(A,"""        self.multiply_into_impl(rhs.borrow(), |v| { v.clone() }, to_degree);
        self""","""        self.multiply_into_impl(rhs, Clone::clone, to_degree);
        self""")],"C15"),
("a-sub-closure",[(A,"""            <Self::ScalarType as CoefficientField>::uminus,
            to_degree);""","""            |v| v.uminus(),
            to_degree
        );""")],"C15"),
("a-comm-two",[(A,"""        result.borrow_mut()
            .add_mul(self, rhs_borrowed, to_degree.clone())
            .sub_mul(rhs_borrowed, self, to_degree);
        result""","""        result.add_mul(self, rhs_borrowed, to_degree);
        result.sub_mul(rhs_borrowed, self, to_degree);
        result""")],"C15"),
("t-lhs-first",[(T,"""        let rhs_padded = pad_to_degree(rhs.borrow());
        let rhs_r = rhs_padded.as_ref().unwrap_or(rhs.borrow());
        let lhs_padded = pad_to_degree(lhs.borrow());
        let lhs_r = lhs_padded.as_ref().unwrap_or(lhs.borrow());
""","""        let lhs_padded = pad_to_degree(lhs.borrow());
        let rhs_padded = pad_to_degree(rhs.borrow());
        let lhs_r = match &lhs_padded {
            Some(v) => v,
            None => lhs.borrow()
        };
        let rhs_r = match &rhs_padded {
            Some(v) => v,
            None => rhs.borrow()
        };
""")],"C13 C14"),
("t-maxdeg",[(T,"""        let max_deg = cmp::min(
            to_degree.expect("Max degree should be set for tensor types"),
            lhs_deg + rhs_deg
        );
""","""        let requested = to_degree.expect("Max degree should be set for tensor types");
        let max_deg = requested.min(lhs_deg + rhs_deg);
""")],"C13 C14"),
("t-range-vars",[(T,"""            for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                let rhs_d = out_deg - lhs_d;
                unsafe {
                    dense_tensor_multiply_into_buffer(
                        self.as_mut_slice()
                            .get_unchecked_mut(
                                TensorBasis::<NLETTERS>::degree_range(out_deg)),""","""            let out_range = TensorBasis::<NLETTERS>::degree_range(out_deg);
            for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                let rhs_d = out_deg - lhs_d;
                unsafe {
                    dense_tensor_multiply_into_buffer(
                        self.as_mut_slice()
                            .get_unchecked_mut(out_range.clone()),""")],"C13 C14"),
("t-safe-index",[(T,"""                unsafe {
                    dense_tensor_multiply_into_buffer(
                        self.as_mut_slice()
                            .get_unchecked_mut(
                                TensorBasis::<NLETTERS>::degree_range(out_deg)),
                        lhs_r.as_slice()
                            .get_unchecked(
                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
                        rhs_r.as_slice()
                            .get_unchecked(
                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
                        &mut func
                    );
                }""","""                unsafe {
                    dense_tensor_multiply_into_buffer(
                        &mut self.as_mut_slice()[TensorBasis::<NLETTERS>::degree_range(out_deg)],
                        &lhs_r.as_slice()[TensorBasis::<NLETTERS>::degree_range(lhs_d)],
                        &rhs_r.as_slice()[TensorBasis::<NLETTERS>::degree_range(rhs_d)],
                        &mut func
                    );
                }""")],"C13 C14"),
("t-buf-zip",[(T,"""        let mut out_ptr = out.as_mut_ptr();

        for lhs_v in lhs {
            for rhs_v in rhs {
                S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                out_ptr = out_ptr.add(1);
            }
        }""","""        let mut out_ptr = out.as_mut_ptr();

        for lhs_v in lhs.iter() {
            for rhs_v in rhs.iter() {
                let product = S::mul(lhs_v, rhs_v);
                let term = func(&product);
                (*out_ptr).add_inplace(&term);
                out_ptr = out_ptr.add(1);
            }
        }""")],"C13 C14"),
("t-into-swap",[(T,"""        let mut result = Self::new();
        result.multiply_and_add_into_impl(&*self, rhs, func, to_degree);
        *self = result;""","""        let mut product = Self::new();
        product.multiply_and_add_into_impl(&*self, rhs.borrow(), func, to_degree);
        self.swap(product);""")],"C13 C15"),
("f-exp-chain",[(F,"""            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
            borrowed_result.add_inplace(&tunit);""","""            let divisor = S::RationalType::from_degree(&i);
            borrowed_result
                .mul_rat_rdiv(self, divisor, Some(Self::MAX_DEGREE))
                .add_inplace(&tunit);""")],"C16"),
("f-log-sign",[(F,"""            if i % 2 == 0 {
                rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
            } else {
                rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
            }""","""            let divisor = Self::RationalType::from_degree(&i);
            match i % 2 {
                0 => { rv.sub_scalar_rdivide(&tunit, divisor); }
                _ => { rv.add_scalar_rdivide(&tunit, divisor); }
            }""")],"C16"),
("f-helper",[(F,"""        if let Some(unit) = x.get_mut(kunit) {
            *unit = Self::ScalarType::ZERO.clone();
        }
""","""        x.drop_unit();
"""),(F,"""        if let Some(unit) = x.get_mut(Self::KeyType::new()) {
            *unit = Self::ScalarType::ZERO.clone();
        }
""","""        x.drop_unit();
"""),(F,"""    fn fmexp(""","""    fn drop_unit(&mut self)
    {
        if let Some(unit) = self.get_mut(Self::KeyType::new()) {
            *unit = Self::ScalarType::ZERO;
        }
    }

    fn fmexp(""")],"C16"),
# sparse
("s-eq-if",[(S,"""            match other.0.get(&k) {
                Some(v1) if *v1 != *v => return false,
                Some(_) => continue,
                None => return false
            }""","""            if other.0.get(k) != Some(v) {
                return false;
            }""")],"C25"),
("s-eq-all",[(S,"""        if self.0.len() != other.0.len() {
            return false;
        }

        for (k, v) in self.0.iter() {
            match other.0.get(&k) {
                Some(v1) if *v1 != *v => return false,
                Some(_) => continue,
                None => return false
            }
        }
        true""","""        self.0.len() == other.0.len()
            && self.0.iter().all(|(k, v)| other.0.get(k).map_or(false, |v1| v1 == v))""")],"C25"),
("s-add-iflet",[(S,"""            match self.0.get_mut(k) {
                Some(i) => {
                    let r = S::add_inplace(i, v);
                    if *r == S::ZERO {
                        self.0.remove(k);
                    }
                },
                None => { self.0.insert(k.clone(), v.clone()); }
            };""","""            if let Some(current) = self.0.get_mut(k) {
                S::add_inplace(current, v);
                if *current == S::ZERO {
                    self.0.remove(k);
                }
            } else {
                self.0.insert(k.clone(), v.clone());
            }""")],"C17"),
("s-sub-compute",[(S,"""                Some(i) => {
                    let r = S::sub_inplace(i, v);
                    if *r == S::ZERO {
                        self.0.remove(k);
                    }
                },""","""                Some(i) => {
                    let cancelled = *S::sub_inplace(i, v) == S::ZERO;
                    if cancelled {
                        self.0.remove(k);
                    }
                },""")],"C17"),
("s-mul-values",[(S,"""        self.0.iter_mut().for_each(move |(_, v)| {
            S::mul_inplace(v, &s);
        });
""","""        for v in self.0.values_mut() {
            S::mul_inplace(v, &s);
        }
""")],"C17"),
("s-fks",[(S,"""        let mut inner = HashMap::new();
        inner.insert(key.into(), scalar.into());
        Self(inner, PhantomData)""","""        let mut result = Self::new();
        result.0.insert(key.into(), scalar.into());
        result""")],"C25"),
# floats, lie
("fl-inplace",[(L,"""    fn add(&self, other: &Self) -> Self {
        self + other
    }""","""    fn add(&self, other: &Self) -> Self {
        let mut sum = *self;
        sum += *other;
        sum
    }""")],"C18"),
("hs-sum-loop",[(R,"""        if depth == 0 {
            0
        } else {
            hall_set_size_impl(width, depth, 1)
        }""","""        let mut total = 0;
        let mut level = 1;
        while level <= depth {
            total += hall_set_level_size(width, level);
            level += 1;
        }
        total""")],"C20 C21"),
("hs-mob-match",[(R,"""        if n == 1 {
            1
        } else if !is_squarefree(n) {
            0
        } else {
            mobius_impl(n, 2)
        }""","""        match n {
            1 => 1,
            _ if is_squarefree(n) => mobius_impl(n, 2),
            _ => 0
        }""")],"C20"),
("hs-lvl-expr",[(R,"""        let a;
        let b;

        if level % divisor == 0 {
            a = hall_set_level_term(width, level, divisor);
        } else {
            a = 0;
        }

        if divisor < level {
            b = hall_set_level_size_impl(width, level, divisor+1);
        } else {
            b = 0;
        }

        a + b""","""        let term = if level % divisor == 0 { hall_set_level_term(width, level, divisor) } else { 0 };
        if divisor >= level {
            return term;
        }
        term + hall_set_level_size_impl(width, level, divisor + 1)""")],"C20"),
("drm-new-grow",[(R,"""        let mut inner = Vec::with_capacity(degree as usize);
        for i in 0..(degree as DimensionType) {
            inner.push(hall_set_size(NLETTERS as DimensionType, i));
        }
        Self(inner)""","""        let width = NLETTERS as DimensionType;
        let inner = (0..degree as DimensionType).map(|i| hall_set_size(width, i)).collect();
        Self(inner)""")],"C21"),
("drm-find-match",[(R,"""            if self.0.is_empty() {
                return Err(MapIsEmpty);
            }

            let dkey = key as DimensionType;

            if let Some(&last) = self.0.last() {
                if last < dkey {
                    return Err(DegreeOutOfBounds);
                }
            } else {
                return Err(DegreeOutOfBounds);
            }

            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)""","""            let dkey = key as DimensionType;

            match self.0.last() {
                None => Err(MapIsEmpty),
                Some(&last) if last < dkey => Err(DegreeOutOfBounds),
                Some(_) => Ok(self.0.partition_point(|v| *v < dkey) as DegreeType)
            }""")],"C21 C26"),
("drm-grow-extend",[(R,"""        self.0.reserve(ureq + 1 - len);

        for d in len..=ureq {
            self.0.push(hall_set_size(NLETTERS as DimensionType, d));
        }
""","""        self.0.extend((len..=ureq).map(|d| hall_set_size(NLETTERS as DimensionType, d)));
""")],"C21"),
("drm-get-match",[(R,"""        if let Some(v) = self.0.get(deg as usize) {
            Ok(*v)
        } else {
            Err(DegreeOutOfBounds)
        }""","""        let index = deg as usize;
        if index >= self.0.len() {
            return Err(DegreeOutOfBounds);
        }
        Ok(self.0[index])""")],"C21"),
("hk-mask-after",[(H,"""        ((self.0 & make_mask(PARENT_BITS, RPARENT_SHIFT)) >> RPARENT_SHIFT) as LetterType""","""        let shifted = self.0 >> RPARENT_SHIFT;
        (shifted & make_mask(PARENT_BITS, 0)) as LetterType""")],"C22 C23"),
("hk-dbg-struct",[(H,"""        if self.is_letter() {
            write!(f, "{}", self.get_key())
        } else {
            write!(f, "[{}, {}]", self.get_lparent(), self.get_rparent())
        }""","""        if !self.is_letter() {
            let (left, right) = (self.get_lparent(), self.get_rparent());
            return write!(f, "[{}, {}]", left, right);
        }
        write!(f, "{}", self.get_key())""")],"C23"),
("w-inner",[(W,"""        self.deref_mut().swap(other.borrow_mut().deref_mut());""","""        let inner = other.borrow_mut();
        self.deref_mut().swap(inner.deref_mut());""")],"C19"),
("w-into",[(W,"""        self.deref().to_owned().into()""","""        let copy = self.deref().to_owned();
        Self::from(copy)""")],"C19"),
("q-logn-if",[(M,"""    if n < 2 {
        return 0;
    } else {
        return const_logn::<N>(n / 2) + 1;
    }""","""    if n <= 1 { 0 } else { 1 + const_logn::<N>(n >> 1) }""")],"C01 C02 C06 C22"),
("q-mask-let",[(M,"""    ((1u64 << n_bits) - 1) << shift""","""    let ones = !(u64::MAX << n_bits);
    ones << shift""")],"C01 C02 C22"),
("q-depth-let",[(K,"""        (64 - Self::size_bits()) / Self::bits_per_letter()""","""        let available = u64::BITS - Self::size_bits();
        available / Self::bits_per_letter()""")],"C01 C03 C04"),
("q-sizebits",[(K,"""        const_logn::<2>(((64 - 1) as u32) / Self::bits_per_letter())""","""        let letters = 63 / Self::bits_per_letter();
        const_logn::<2>(letters)""")],"C01 C03"),
("q-fromletter",[(K,"""        Self {
            size: 1,
            data: letter as u64 - 1
        }""","""        let data = (letter - 1) as u64;
        Self { size: 1, data }""")],"C01 C03"),
("q-get-div",[(K,"""        let pos = letter;
        let mask: u64 = make_mask(
            Self::bits_per_letter(),
            pos * Self::bits_per_letter()
        );
        let first_masked = self.data & mask;
        let second_mask= first_masked >> pos*Self::bits_per_letter();
        second_mask as LetterType""","""        let shift = letter * Self::bits_per_letter();
        ((self.data >> shift) & Self::letter_mask()) as LetterType""")],"C01 C03 C06 C23"),
("q-push-checked",[(K,"""        self.push_front_raw(letter - 1)
    }""","""        let raw = letter - 1;
        self.push_front_raw(raw);
        self
    }""")],"C01 C06"),
("q-tolet-extend",[(K,"""        for i in 0..(self.size()) {
            result.push(self.get_letter( i));
        }""","""        result.extend((0..self.size()).map(|i| self.get_letter(i)));""")],"C01"),
("q-start-names",[(B,"""        let mut result = 0;
        let mut i = 0;
        while i < deg {
            result = result * (NLETTERS as DimensionType) + 1;
            i += 1;
        }
        result""","""        let width = NLETTERS as DimensionType;
        let mut total = 0;
        let mut remaining = deg;
        while remaining > 0 {
            total = total * width + 1;
            remaining -= 1;
        }
        total""")],"C03 C04 C06 C13"),
("q-start-sum",[(B,"""        let mut result = 0;
        let mut i = 0;
        while i < deg {
            result = result * (NLETTERS as DimensionType) + 1;
            i += 1;
        }
        result""","""        let mut result = 0;
        let mut i = 0;
        while i < deg {
            result = 1 + (NLETTERS as DimensionType) * result;
            i += 1;
        }
        result""")],"C03 C04 C06"),
("q-i2d-simple",[(B,"""        if *index == 0 {
            0
        } else if 1 <= *index && *index <= NLETTERS as DimensionType {
            1
        } else if Self::start_of_degree(2) <= *index && *index < Self::start_of_degree(3) {
            2
        } else {
            Self::index_to_degree_impl(index, 3)
        }""","""        Self::index_to_degree_impl(index, 0)""")],"C04 C07 C11"),
("q-i2d-while",[(B,"""        if *index == 0 {
            0
        } else if 1 <= *index && *index <= NLETTERS as DimensionType {
            1
        } else if Self::start_of_degree(2) <= *index && *index < Self::start_of_degree(3) {
            2
        } else {
            Self::index_to_degree_impl(index, 3)
        }""","""        let mut degree = 0;
        while Self::start_of_degree(degree + 1) <= *index {
            degree += 1;
        }
        degree""")],"C04 C07 C11 C13"),
("q-k2i-hoist",[(B,"""        let mut result = 0;

        let mut i = key.size();
        let size = key.size();
        while i >= 1 {
            i -= 1;
            result *= NLETTERS as DimensionType;
            result += key.get_letter( i) as DimensionType;
        }

        result""","""        let base = NLETTERS as DimensionType;
        let mut index = 0;
        let mut position = key.size();
        while position > 0 {
            position -= 1;
            index = index * base + key.get_letter(position) as DimensionType;
        }

        index""")],"C03 C05 C07"),
("q-i2k-hoist",[(B,"""        let mut pos = index;
        let mut result = Self::KeyType::new();

        while pos > 0 {
            pos -= 1;
            result.push_front_raw((pos % FACTOR) as LetterType);
            pos /= FACTOR;
        }

        result""","""        let mut key = Self::KeyType::new();
        let mut rest = index;

        while rest != 0 {
            let digit = (rest - 1) % FACTOR;
            key.push_front_raw(digit as LetterType);
            rest = (rest - 1) / FACTOR;
        }

        key""")],"C03"),
("q-cmp-ne",[(B,"""        match Ord::cmp(&lhs.size(), &rhs.size()) {
            Ordering::Equal => Ord::cmp(&lhs.data(), &rhs.data()),
            unequal => unequal
        }""","""        if lhs.size() != rhs.size() {
            return lhs.size().cmp(&rhs.size());
        }
        lhs.data().cmp(&rhs.data())""")],"C05"),
("q-iter-letelse",[(I,"""                let letter = current.get_letter(letter_i);
                if letter == (NLETTERS as LetterType) {
                    current.set_letter(letter_i, 1);
                    letter_i += 1;
                } else {
                    current.set_letter(letter_i, letter + 1);
                    break;
                }""","""                let letter = current.get_letter(letter_i);
                if letter != NLETTERS {
                    current.set_letter(letter_i, letter + 1);
                    break;
                }
                current.set_letter(letter_i, 1);
                letter_i += 1;""")],"C06"),
("q-iter-last",[(I,"""            let mut letter_i = 0;
            loop {
                if letter_i == current.size() {""","""            let last = NLETTERS as LetterType;
            let mut letter_i = 0;
            loop {
                if letter_i == current.size() {"""),(I,"""                if letter == (NLETTERS as LetterType) {""","""                if letter == last {""")],"C06"),
("q-fi-names",[(D,"""        vec.sort_by(|(i1, _v1), (i2, _v2)| { cmp::Ord::cmp(i1, i2) });""","""        vec.sort_by(|a, b| a.0.cmp(&b.0));""")],"C07 C14"),
("q-fi-len",[(D,"""        if vec.is_empty() {
            return Self::new();
        }
""","""        if vec.len() == 0 {
            return SimpleDenseVector(Owned(Vec::new()), PhantomData);
        }
""")],"C07 C14"),
("q-fi-hoistdim",[(D,"""        let dimension = Self::BasisType::vector_dimension_for_index( vec.last().unwrap().0);

        let mut result = Self::from_dimension(dimension);
""","""        let largest = vec.last().unwrap().0;
        let dimension = B::vector_dimension_for_index(largest);
        let mut result: Self = Self::from_dimension(dimension);
""")],"C07 C14"),
("q-fi-nosort",[(D,"""        vec.sort_by(|(i1, _v1), (i2, _v2)| { cmp::Ord::cmp(i1, i2) });
        let dimension = Self::BasisType::vector_dimension_for_index( vec.last().unwrap().0);
""","""        let largest = vec.iter().map(|(i, _)| *i).max().unwrap();
        let dimension = Self::BasisType::vector_dimension_for_index(largest);
""")],"C07 C14"),
("q-get-let",[(D,"""        self.as_mut_slice().get_mut(B::key_to_index(key.borrow()))""","""        let index = B::key_to_index(key.borrow());
        let slice = self.as_mut_slice();
        slice.get_mut(index)""")],"C08 C12"),
("q-get-bounds",[(D,"""        self.as_slice().get(B::key_to_index(key.borrow()))""","""        let index = B::key_to_index(key.borrow());
        let slice = self.as_slice();
        if index < slice.len() { Some(&slice[index]) } else { None }""")],"C08"),
("q-ins-max",[(D,"""        if idx >= self.size() {
            self.resize(B::vector_dimension_for_key(key));
        }
        self.as_mut_slice()[idx] = value.into();""","""        let value = value.into();
        if !(idx < self.size()) {
            let dimension = B::vector_dimension_for_key(key);
            self.resize(dimension);
        }
        self.as_mut_slice()[idx] = value;""")],"C08 C12"),
("q-neg-assign",[(D,"""            *val = Self::ScalarType::uminus(val);""","""            let negated = val.uminus();
            *val = negated;""")],"C09 C10"),
("q-add-slices",[(D,"""        for (lhs, rhs) in self.as_mut_slice().iter_mut().zip(lhs_vec.as_slice()) {
            Self::ScalarType::add_inplace(lhs, rhs);
        }

        self""","""        let rhs_slice = lhs_vec.as_slice();
        let lhs_slice = self.as_mut_slice();
        for (lhs, rhs) in lhs_slice.iter_mut().zip(rhs_slice.iter()) {
            *lhs = lhs.add(rhs);
        }

        self""")],"C09 C10 C16"),
("q-div-hoist",[(D,"""        let val = rational.into();

        for lhs in self.as_mut_slice() {
            Self::ScalarType::div_inplace(lhs, &val);
        }""","""        let divisor: S::RationalType = rational.into();
        let slice = self.as_mut_slice();
        for coefficient in slice.iter_mut() {
            coefficient.div_inplace(&divisor);
        }""")],"C09"),
("q-mul-while",[(D,"""        for lhs in self.as_mut_slice() {
            Self::ScalarType::mul_inplace(lhs, &val);
        }""","""        let slice = self.as_mut_slice();
        let mut i = 0;
        while i < slice.len() {
            S::mul_inplace(&mut slice[i], &val);
            i += 1;
        }""")],"C09"),
("q-resize-if",[(D,"""        match &mut self.0 {
            Owned(v) => v.resize(new_dim, S::ZERO),
            BorrowedMut(_) | Borrowed(_) => Self::to_owned_with_size(self, Some(new_dim))
        }""","""        if let Owned(v) = &mut self.0 {
            v.resize(new_dim, S::ZERO);
            return;
        }
        self.to_owned_with_size(Some(new_dim));""")],"C11 C08"),
("q-size-slice",[(D,"""        match &self.0 {
            Owned(v) => v.len(),
            BorrowedMut(v) => v.len(),
            Borrowed(v) => v.len()
        }""","""        self.as_slice().len()""")],"C08 C09 C11"),
("q-neg-owned",[(V,"""        let mut result = self.to_owned();
        result.borrow_mut().scalar_lmultiply_inplace(scalar);
        result""","""        let mut copy = self.to_owned();
        copy.scalar_lmultiply_inplace(scalar.into());
        copy""")],"C10"),
("q-alg-rdiv",[(A,"""        let mut result = Self::new();
        result.borrow_mut().multiply_and_add_into_impl(self, rhs.borrow(), |v| { v.clone() }, to_degree);
        result""","""        let mut result = Self::new();
        result.add_mul(self, rhs, to_degree);
        result""")],"C15"),
("q-ten-degs",[(T,"""            let lhs_deg_min = {
                if out_deg > rhs_deg {
                    out_deg - rhs_deg
                } else {
                    0
                }
            };
            let lhs_deg_max = cmp::min(out_deg, lhs_deg);
""","""            let lhs_deg_max = lhs_deg.min(out_deg);
            let lhs_deg_min = if out_deg <= rhs_deg { 0 } else { out_deg - rhs_deg };
""")],"C13 C14"),
("q-ten-dim",[(T,"""        if self.as_slice().len() < TensorBasis::<NLETTERS>::start_of_degree(max_deg+1) {
            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
        }
""","""        let required = TensorBasis::<NLETTERS>::degree_range(max_deg).end;
        if required > self.as_slice().len() {
            self.resize(required);
        }
""")],"C13 C14"),
("q-ten-skip",[(T,"""            for rhs_v in rhs {
                S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                out_ptr = out_ptr.add(1);
            }""","""            for rhs_v in rhs {
                let out_v = &mut *out_ptr;
                out_v.add_inplace(&func(&lhs_v.mul(rhs_v)));
                out_ptr = out_ptr.add(1);
            }""")],"C13 C14"),
("q-pad-match",[(T,"""    let dim = TensorBasis::<NLETTERS>::start_of_degree(arg.degree() + 1);
    if arg.as_slice().len() < dim {
        let mut result = arg.to_owned();
        result.resize(dim);
        Some(result)
    } else {
        None
    }""","""    let degree = arg.degree();
    let dim = TensorBasis::<NLETTERS>::degree_range(degree).end;
    if arg.as_slice().len() >= dim {
        return None;
    }
    let mut padded = arg.to_owned();
    padded.resize(dim);
    Some(padded)""")],"C13 C14 C15"),
("q-exp-names",[(F,"""        let tunit = Self::from_key(Self::KeyType::new());
        let mut result = Self::from_key(Self::KeyType::new());
        let borrowed_result = result.borrow_mut();

        for i in (1..=Self::MAX_DEGREE).rev() {
            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
            borrowed_result.add_inplace(&tunit);
        }
        result""","""        let one = Self::from_key(Self::KeyType::new());
        let max_degree = Self::MAX_DEGREE;
        let mut sum = Self::from_key(Self::KeyType::new());

        for degree in (1..=max_degree).rev() {
            sum.mul_rat_rdiv(self, S::RationalType::from_degree(&degree), Some(max_degree));
            sum.add_inplace(&one);
        }
        sum""")],"C16"),
("q-fmexp-maxdeg",[(F,"""            self.mul_rat_rdiv(&x, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
            self.add_inplace(oself);""","""            let degree = Self::MAX_DEGREE + 1 - i;
            self.mul_rat_rdiv(&x, S::RationalType::from_degree(&i), Some(degree));
            self.add_inplace(&old_self);""")],"C16"),
("q-fmexp-full",[(F,"""Some(Self::MAX_DEGREE -i + 1));""","""Some(Self::MAX_DEGREE));""")],"C16"),
("q-sp-clear",[(S,"""        let s = scalar.into();
        if s == S::ZERO {
            self.0.clear();
            return self;
        }

        self.0.iter_mut().for_each(move |(_, v)| {
            S::mul_inplace(v, &s);
        });

        self""","""        let s: S = scalar.into();
        if s != S::ZERO {
            self.0.iter_mut().for_each(|(_, v)| { v.mul_inplace(&s); });
        } else {
            self.0.clear();
        }
        self""")],"C17"),
("q-sp-add-names",[(S,"""        for (k, v) in other.borrow().0.iter() {
            match self.0.get_mut(k) {
                Some(i) => {
                    let r = S::add_inplace(i, v);
                    if *r == S::ZERO {""","""        let rhs = other.borrow();
        for (k, v) in &rhs.0 {
            match self.0.get_mut(k) {
                Some(coefficient) => {
                    let sum = coefficient.add_inplace(v);
                    if *sum == S::ZERO {""")],"C17"),
("q-sp-get",[(S,"""        self.0.insert(key.clone(), value.into());""","""        let value = value.into();
        self.0.insert(key.clone(), value);""")],"C25"),
("q-drm-req",[(R,"""        let len = self.0.len();
        if (requested as usize) < len {
            return Ok(());
        }

        let ureq = requested as usize;

        self.0.reserve(ureq + 1 - len);

        for d in len..=ureq {
            self.0.push(hall_set_size(NLETTERS as DimensionType, d));
        }

        Ok(())""","""        let width = NLETTERS as DimensionType;
        let target = requested as usize + 1;
        for d in self.0.len()..target {
            self.0.push(hall_set_size(width, d));
        }
        Ok(())""")],"C21"),
("q-drm-hoist",[(R,"""        let mut inner = Vec::with_capacity(degree as usize);
        for i in 0..(degree as DimensionType) {
            inner.push(hall_set_size(NLETTERS as DimensionType, i));
        }
        Self(inner)""","""        let width = NLETTERS as DimensionType;
        let mut sizes = Vec::with_capacity(degree as usize);
        for i in 0..(degree as DimensionType) {
            sizes.push(hall_set_size(width, i));
        }
        Self(sizes)""")],"C21 C26"),
("q-drm-find-last",[(R,"""            if let Some(&last) = self.0.last() {
                if last < dkey {
                    return Err(DegreeOutOfBounds);
                }
            } else {
                return Err(DegreeOutOfBounds);
            }
""","""            let last = self.0[self.0.len() - 1];
            if dkey > last {
                return Err(DegreeOutOfBounds);
            }
""")],"C21 C26"),
("q-mob-sq",[(R,"""        (n % (base * base)) != 0 && (base * base >= n || is_squarefree_impl(n, base+1))""","""        let square = base * base;
        if n % square == 0 {
            return false;
        }
        square >= n || is_squarefree_impl(n, base + 1)""")],"C20"),
("q-hk-consts",[(H,"""        let msize = (size as DataType) << SIZE_SHIFT;
        let mlparent = lparent << LPARENT_SHIFT;
        let mrparent = rparent << RPARENT_SHIFT;
        key + mlparent + mrparent + msize""","""        let parents = (lparent << LPARENT_SHIFT) | (rparent << RPARENT_SHIFT);
        ((size as DataType) << SIZE_SHIFT) | parents | key""")],"C22 C23"),
("q-hk-letter",[(H,"""        Self(Self::make_key_data(letter as DataType, 0, letter as DataType, 1))""","""        let key = letter as DataType;
        let data = Self::make_key_data(key, 0, key, 1);
        Self(data)""")],"C22"),
("q-fl-self",[(L,"""    fn sub(&self, other: &Self) -> Self {
        self - other
    }""","""    fn sub(&self, other: &Self) -> Self {
        *self - *other
    }""")],"C18"),
('dsp-iter',[('vector/implementation/simple_dense_vector.rs', 'for (k, v) in B::iter_keys().zip(self.as_slice())  {', 'for (k, v) in B::iter_keys().zip(self.as_slice().iter())  {')],'C23'),
('dsp-two',[('vector/implementation/simple_dense_vector.rs', 'write!(f, "{}{}", v, k as K)?;', 'write!(f, "{}", v)?;\n            write!(f, "{}", k)?;')],'C23'),
('dsp-nocast',[('vector/implementation/simple_dense_vector.rs', 'write!(f, "{}{}", v, k as K)?;', 'write!(f, "{}{}", v, k)?;')],'C23'),
('dsp-fmt',[('vector/implementation/simple_dense_vector.rs', 'write!(f, "{}{}", v, k as K)?;', 'Display::fmt(v, f)?;\n            k.fmt(f)?;')],'C23'),
('dsp-ret',[('vector/implementation/simple_dense_vector.rs', 'write!(f, "{}{}", v, k as K)?;', 'if let Err(e) = write!(f, "{}{}", v, k) { return Err(e); }')],'C23'),
('dsp-swapzip',[('vector/implementation/simple_dense_vector.rs', 'for (k, v) in B::iter_keys().zip(self.as_slice())  {', 'for (v, k) in self.as_slice().iter().zip(B::iter_keys())  {')],'C23'),
('dsp-manual',[('vector/implementation/simple_dense_vector.rs', 'for (k, v) in B::iter_keys().zip(self.as_slice())  {', 'let mut keys = B::iter_keys();\n        for v in self.as_slice() {\n            let k = match keys.next() { Some(k) => k, None => break };')],'C23'),
('dsp-local',[('vector/implementation/simple_dense_vector.rs', 'for (k, v) in B::iter_keys().zip(self.as_slice())  {', 'let coeffs = self.as_slice();\n        for (key, coeff) in B::iter_keys().zip(coeffs)  {'), ('vector/implementation/simple_dense_vector.rs', 'write!(f, "{}{}", v, k as K)?;', 'write!(f, "{}{}", coeff, key)?;')],'C23'),
('dsp-term',[('vector/implementation/simple_dense_vector.rs', "impl<'a, B, S, K> Display for SimpleDenseVector<'a, B, S>", 'fn write_term<K: Display, S: Display>(f: &mut Formatter<\'_>, k: &K, v: &S) -> fmt::Result {\n    write!(f, "{}{}", v, k)\n}\n\nimpl<\'a, B, S, K> Display for SimpleDenseVector<\'a, B, S>'), ('vector/implementation/simple_dense_vector.rs', 'write!(f, "{}{}", v, k as K)?;', 'write_term(f, &k, v)?;')],'C23'),
('dsp-tryfe',[('vector/implementation/simple_dense_vector.rs', 'for (k, v) in B::iter_keys().zip(self.as_slice())  {\n            write!(f, "{}{}", v, k as K)?;\n        }\n        Ok(())', 'B::iter_keys().zip(self.as_slice()).try_for_each(|(k, v)| write!(f, "{}{}", v, k))')],'C23'),
('z-get-slice',[('vector/traits/dense_vector.rs', '        self.as_slice().get(index)', '        let coefficients = self.as_slice();\n        coefficients.get(index)'), ('vector/traits/dense_vector.rs', '        self.as_mut_slice().get_mut(index)', '        let coefficients = self.as_mut_slice();\n        coefficients.get_mut(index)')],'C08'),
('z-keyiter',[('free_tensor/tensor_basis/tensor_key.rs', '        if self.index == self.key.size() {\n            None\n        } else {\n            self.index += 1;\n            Some(self.key.get_letter(self.key.size() - self.index ))\n        }', '        let remaining = self.key.size() - self.index;\n        if remaining == 0 {\n            return None;\n        }\n        self.index += 1;\n        Some(self.key.get_letter(remaining - 1))')],'C01'),
('z-into',[('free_tensor/implementation/dense.rs', "    fn into(self) -> SimpleDenseVector<'a, TensorBasis<NLETTERS>, S> {\n        self.0", "    fn into(self) -> SimpleDenseVector<'a, TensorBasis<NLETTERS>, S> {\n        let DenseTensor(inner) = self;\n        inner")],'C19'),
('z-deref',[('free_tensor/implementation/dense.rs', '        &self.0\n    }', '        let Self(inner) = self;\n        inner\n    }')],'C19'),
('z-sp-key',[('vector/implementation/simple_sparse_vector.rs', '        &*self.0\n', '        self.0\n'), ('vector/implementation/simple_sparse_vector.rs', '        &*self.1\n', '        self.1\n')],'C25'),
('z-sp-key2',[('vector/implementation/simple_sparse_vector.rs', '        &*self.0\n', '        let (k, _) = *self;\n        k\n'), ('vector/implementation/simple_sparse_vector.rs', '        &*self.1\n', '        let (_, v) = *self;\n        v\n')],'C25'),
('z-sp-eq-match',[('vector/implementation/simple_sparse_vector.rs', '            match other.0.get(&k) {\n                Some(v1) if *v1 != *v => return false,\n                Some(_) => continue,\n                None => return false\n            }', '            let same = match other.0.get(k) {\n                Some(v1) => *v1 == *v,\n                None => false\n            };\n            if !same {\n                return false;\n            }')],'C25'),
('z-sp-eq-flag',[('vector/implementation/simple_sparse_vector.rs', '        for (k, v) in self.0.iter() {\n            match other.0.get(&k) {\n                Some(v1) if *v1 != *v => return false,\n                Some(_) => continue,\n                None => return false\n            }\n        }\n        true', '        let mut equal = true;\n        for (k, v) in self.0.iter() {\n            match other.0.get(k) {\n                Some(v1) if *v1 == *v => {}\n                _ => equal = false\n            }\n        }\n        equal')],'C25'),
('z-sp-rdiv-for',[('vector/implementation/simple_sparse_vector.rs', '        self.0.iter_mut().for_each(move |(_, v)| {\n            S::div_inplace(v, &r);\n        });', '        for v in self.0.values_mut() {\n            v.div_inplace(&r);\n        }')],'C17'),
('z-sp-add-entry',[('vector/implementation/simple_sparse_vector.rs', '                None => { self.0.insert(k.clone(), v.clone()); }\n            };\n        }\n        self\n    }\n\n    fn sub_inplace', '                None => {\n                    let (key, value) = (k.clone(), v.clone());\n                    self.0.insert(key, value);\n                }\n            };\n        }\n        self\n    }\n\n    fn sub_inplace')],'C17'),
('z-sp-sub-bool',[('vector/implementation/simple_sparse_vector.rs', '                    let r = S::sub_inplace(i, v);\n                    if *r == S::ZERO {\n                        self.0.remove(k);\n                    }', '                    let vanished = *S::sub_inplace(i, v) == S::ZERO;\n                    if vanished {\n                        self.0.remove(k);\n                    }')],'C17'),
('z-eq-helper',[('vector/implementation/simple_dense_vector.rs', '        let a = match &self.0 {\n            Owned(v) => v.as_slice(),\n            BorrowedMut(v) => v,\n            Borrowed(v ) => v\n        };\n\n        let b = match &other.0 {\n            Owned(ref v) => v.as_slice(),\n            BorrowedMut(v) => v,\n            Borrowed(v ) => v\n        };\n\n        a == b', '        self.as_slice().len() == other.as_slice().len() && self.as_slice() == other.as_slice()')],'C11'),
('z-eq-loop',[('vector/implementation/simple_dense_vector.rs', '        a == b\n', '        if a.len() != b.len() {\n            return false;\n        }\n        for i in 0..a.len() {\n            if a[i] != b[i] {\n                return false;\n            }\n        }\n        true\n')],'C11'),
('z-eq-zip',[('vector/implementation/simple_dense_vector.rs', '        a == b\n', '        a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y)\n')],'C11'),
('z-owned-size',[('vector/implementation/simple_dense_vector.rs', '        if let Some(dim) = resize {\n            new_vec.resize(dim, S::ZERO);\n        }\n', '        match resize {\n            Some(dim) => new_vec.resize(dim, S::ZERO),\n            None => {}\n        }\n')],'C11 C09'),
('z-owned-unif',[('vector/implementation/simple_dense_vector.rs', '        match &self.0 {\n            Borrowed(v) => new_vec.extend_from_slice(v),\n            BorrowedMut(v) => new_vec.extend_from_slice(v),\n            Owned(_) => unreachable!()\n        }', '        debug_assert!(!matches!(self.0, Owned(_)));\n        new_vec.extend_from_slice(self.as_slice());')],'C11'),
('z-exp-fn',[('free_tensor/mod.rs', '            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));\n            borrowed_result.add_inplace(&tunit);', '            let divisor = S::RationalType::from_degree(&i);\n            let max_degree = Some(Self::MAX_DEGREE);\n            borrowed_result.mul_rat_rdiv(self, divisor, max_degree).add_inplace(&tunit);')],'C16'),
('z-exp-direct',[('free_tensor/mod.rs', '        let borrowed_result = result.borrow_mut();\n\n        for i in (1..=Self::MAX_DEGREE).rev() {\n            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));\n            borrowed_result.add_inplace(&tunit);', '\n        for i in (1..=Self::MAX_DEGREE).rev() {\n            result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));\n            result.add_inplace(&tunit);')],'C16'),
('z-log-match',[('free_tensor/mod.rs', '            if i % 2 == 0 {\n                rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));\n            } else {\n                rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));\n            }', '            let rational = Self::RationalType::from_degree(&i);\n            match i & 1 {\n                0 => rv.sub_scalar_rdivide(&tunit, rational),\n                _ => rv.add_scalar_rdivide(&tunit, rational),\n            };')],'C16'),
('z-drm-err',[('lie/lie_basis/degree_range_map.rs', '            _ => write!(f, "unknown degree range map error")', '            _ => f.write_str("unknown degree range map error")')],'C21'),
('z-sqf',[('lie/lie_basis/degree_range_map.rs', '(n % (base * base)) != 0 && (base * base >= n || is_squarefree_impl(n, base+1))', 'let square = base * base;\n        if n % square == 0 {\n            return false;\n        }\n        square >= n || is_squarefree_impl(n, base + 1)')],'C20'),
('z-mob-order',[('lie/lie_basis/degree_range_map.rs', '        if divisor == n {\n            -1\n        } else if n % divisor == 0 {\n            mobius(divisor) * mobius(n / divisor)\n        } else {\n            mobius_impl(n, divisor+1)\n        }', '        if divisor == n {\n            return -1;\n        }\n        if n % divisor != 0 {\n            return mobius_impl(n, divisor + 1);\n        }\n        mobius(n / divisor) * mobius(divisor)')],'C20'),
('z-term',[('lie/lie_basis/degree_range_map.rs', '        mobius(divisor) *\n            (width as SignedDimensionType).pow((level/divisor) as u32)', '        let exponent = (level / divisor) as u32;\n        let power = (width as SignedDimensionType).pow(exponent);\n        power * mobius(divisor)')],'C20'),
('z-lvl-if',[('lie/lie_basis/degree_range_map.rs', '        let a;\n        let b;\n\n        if level % divisor == 0 {\n            a = hall_set_level_term(width, level, divisor);\n        } else {\n            a = 0;\n        }\n\n        if divisor < level {\n            b = hall_set_level_size_impl(width, level, divisor+1);\n        } else {\n            b = 0;\n        }\n\n        a + b', '        let rest = if divisor < level {\n            hall_set_level_size_impl(width, level, divisor + 1)\n        } else {\n            0\n        };\n\n        if level % divisor != 0 {\n            rest\n        } else {\n            hall_set_level_term(width, level, divisor) + rest\n        }')],'C20'),
('z-set-letter',[('free_tensor/tensor_basis/tensor_key.rs', '        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);\n        let mut data = self.data();\n        data &= mask;\n        data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;\n        self.data = data;', '        let shift = Self::bits_per_letter() * letter;\n        let cleared = self.data() & !make_mask(Self::bits_per_letter(), shift);\n        self.data = cleared | ((new_val as u64 - 1) << shift);')],'C06'),
('z-set-letter2',[('free_tensor/tensor_basis/tensor_key.rs', '        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);\n        let mut data = self.data();\n        data &= mask;\n        data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;\n        self.data = data;', '        let shift = Self::bits_per_letter() * letter;\n        self.data &= !(Self::letter_mask() << shift);\n        self.data |= u64::from(new_val - 1) << shift;')],'C06'),
('z-get-letter',[('free_tensor/tensor_basis/tensor_key.rs', '        let pos = letter;\n        let mask: u64 = make_mask(\n            Self::bits_per_letter(),\n            pos * Self::bits_per_letter()\n        );\n        let first_masked = self.data & mask;\n        let second_mask= first_masked >> pos*Self::bits_per_letter();\n        second_mask as LetterType', '        let bits = Self::bits_per_letter();\n        ((self.data >> (letter * bits)) & make_mask(bits, 0)) as LetterType')],'C01 C03 C06'),
('z-hs-object',[('lie/lie_basis/hall_set.rs', '        let inner = self.0.read()\n            .map_err(|_| HallSetError::HallSetReadError)?;\n        inner.is_letter(key)', '        match self.0.read() {\n            Ok(inner) => inner.is_letter(key),\n            Err(_) => Err(HallSetError::HallSetReadError)\n        }')],'C26'),
('z-hs-lparent',[('lie/lie_basis/hall_set.rs', '        if let Some((parent, _)) = self.get_parents(key) {\n            let p = *parent as DataType;\n            let (l, r) = self.get_parents(p).unwrap();\n            Ok((p, *l as DataType, *r as DataType, self.degree(p).unwrap()))\n        } else {\n            Err(HallSetError::HallSetTooSmall)\n        }\n', '        let parents = self.get_parents(key).ok_or(HallSetError::HallSetTooSmall)?;\n        let p = parents.0 as DataType;\n        let &(l, r) = self.get_parents(p).unwrap();\n        let degree = self.degree(p).unwrap();\n        Ok((p, l as DataType, r as DataType, degree))\n')],'C26'),
# names of fields, constants, derives written out
("y-field-data",[whole(K,(r'\bself\.data\b(?!\()','self.bits'),(r'^    data: u64',''),(r'    data: u64\n','    bits: u64\n'),(r'data: 0 \}','bits: 0 }'),(r'data: letter as u64','bits: letter as u64'),(r'            data\n        \}','            bits: data\n        }'),(r'            data: if','            bits: if'))],"C01 C02 C03 C05 C06"),
("y-field-size",[whole(K,(r'\bself\.size\b(?!\()','self.len'),(r'    size: DegreeType,\n    data','    len: DegreeType,\n    data'),(r'size: 0, data','len: 0, data'),(r'size: 1,','len: 1,'),(r'size: letters','len: letters'),(r'size: self.size\(\) \+','len: self.size() +'))],"C01 C02 C03 C05"),
("y-gen-name",[whole(K,(r'\bNLetters\b','NLETTERS'))],"C01 C02 C23"),
("y-iter-field",[whole(I,(r'\bself\.current\b','self.next_key'),(r'    current: Option','    next_key: Option'),(r'current: Some\(','next_key: Some('))],"C06"),
("y-iter-field2",[whole(I,(r'\bself\.max_depth\b','self.limit'),(r'    max_depth: DegreeType','    limit: DegreeType'),(r'max_depth: TensorKey','limit: TensorKey'))],"C06"),
("y-i2d-rename",[whole(B,(r'index_to_degree_impl','find_degree_from'))],"C04 C07"),
("y-drm-field",[whole(R,(r'pub struct DegreeRangeMap<const NLETTERS: DegreeType>\(Vec<DimensionType>\);','pub struct DegreeRangeMap<const NLETTERS: DegreeType> {\n    sizes: Vec<DimensionType>\n}'),(r'self\.0','self.sizes'),(r'Self\(inner\)','Self { sizes: inner }'))],"C21 C26"),
("y-hk-field",[whole(H,(r'pub struct HallKey<const NLETTERS: DegreeType>\(DataType\);','pub struct HallKey<const NLETTERS: DegreeType> {\n    data: DataType\n}'),(r'self\.0','self.data'),(r'Self\((Self::make_key_data\(.*\))\)',r'Self { data: \1 }'),(r'HallKey\(0\)','HallKey { data: 0 }'))],"C22 C23"),
("y-key-manual-eq",[(K,"#[derive(PartialEq, Clone)]\npub struct TensorKey<const NLetters: u32>","#[derive(Clone)]\npub struct TensorKey<const NLetters: u32>"),(K,"impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {","impl<const NLETTERS: u32> PartialEq for TensorKey<NLETTERS> {\n    fn eq(&self, other: &Self) -> bool {\n        self.size == other.size && self.data == other.data\n    }\n}\n\nimpl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {")],"C01 C05"),
("y-key-manual-clone",[(K,"#[derive(PartialEq, Clone)]\npub struct TensorKey<const NLetters: u32>","#[derive(PartialEq)]\npub struct TensorKey<const NLetters: u32>"),(K,"impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {","impl<const NLETTERS: u32> Clone for TensorKey<NLETTERS> {\n    fn clone(&self) -> Self {\n        Self { size: self.size, data: self.data }\n    }\n}\n\nimpl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {")],"C01 C06"),
("y-key-copy",[(K,"#[derive(PartialEq, Clone)]\npub struct TensorKey<const NLetters: u32>","#[derive(PartialEq, Eq, Clone, Copy, Hash)]\npub struct TensorKey<const NLetters: u32>")],"C01 C06"),
("y-key-assoc-const",[(K,"impl<const NLetters: u32> TensorKey<NLetters> {\n","impl<const NLetters: u32> TensorKey<NLetters> {\n    const BITS: u32 = const_logn::<2>(NLetters) + 1;\n"),(K,"        const_logn::<2>(NLetters) + 1\n    }","        Self::BITS\n    }")],"C01 C02 C03"),
("y-dense-field",[whole(D,(r'pub struct SimpleDenseVector<\'a, B: OrderedBasis, S: CoefficientField>\(\n    SimpleDenseVectorData<\'a, S>, PhantomData<B>\n\);','pub struct SimpleDenseVector<\'a, B: OrderedBasis, S: CoefficientField> {\n    data: SimpleDenseVectorData<\'a, S>,\n    basis: PhantomData<B>\n}'),(r'self\.0\b','self.data'),(r'other\.0\b','other.data'),(r'other\.borrow_mut\(\)\.0','other.borrow_mut().data'),(r'SimpleDenseVector\(Owned\((.*)\), PhantomData\)',r'SimpleDenseVector { data: Owned(\1), basis: PhantomData }'),(r'Self\(match &self.data \{([^}]*)\}, PhantomData\)',r'Self { data: match &self.data {\1}, basis: PhantomData }'))],"C07 C08 C09 C11"),
("y-dense-variants",[whole(D,(r'\bOwned\b','Own'),(r'\bBorrowedMut\b','ViewMut'),(r'\bBorrowed\b','View'))],"C07 C09 C11"),
("y-hs-fields",[whole(Z,(r'self\.set\b','self.parents'),(r'            set: vec!','            parents: vec!'),(r'    set: Vec<','    parents: Vec<'),(r'inner\.set','inner.parents'),(r'self\.degrees','self.sizes'),(r'            degrees: Deg','            sizes: Deg'),(r'    degrees: Deg','    sizes: Deg'))],"C26 C24"),
("y-hs-cache-name",[whole(Z,(r'HALL_SET_CACHE','HALL_SETS'))],"C24"),
("y-hs-parents-type",[(Z,"struct HallSetInner<const","type Parents = (LetterType, LetterType);\n\nstruct HallSetInner<const"),(Z,"    set: Vec<(LetterType, LetterType)>,","    set: Vec<Parents>,"),(Z,"-> Option<&(LetterType, LetterType)>","-> Option<&Parents>")],"C26"),
("y-min-use",[(T,"use std::cmp;","use std::cmp::min;"),(T,"let max_deg = cmp::min(","let max_deg = min("),(T,"let lhs_deg_max = cmp::min(","let lhs_deg_max = min(")],"C13"),
("y-tmod-move",[(T,"        use tensor_mul_impl::dense_tensor_multiply_into_buffer;\n",""),(T,"                    dense_tensor_multiply_into_buffer(\n                        self","                    tensor_mul_impl::dense_tensor_multiply_into_buffer(\n                        self")],"C13 C14"),
("y-buf-rename",[whole(T,(r'dense_tensor_multiply_into_buffer','multiply_level'))],"C13 C14"),
("y-pad-rename",[whole(T,(r'pad_to_degree','whole_degrees'))],"C13 C14"),
("y-wt-rename",[whole(R,(r'hall_set_level_term','witt_term'),(r'mobius_impl','mobius_from'),(r'is_squarefree_impl','squarefree_from'))],"C20 C21"),
("y-owned-rename",[whole(D,(r'to_owned_with_size','make_owned'))],"C08 C11"),
("y-hs-manual-clone",[(Z,"#[derive(Clone)]\npub struct HallSetObject(","pub struct HallSetObject("),(Z,"impl HallSetObject {\n\n    fn new","impl Clone for HallSetObject {\n    fn clone(&self) -> Self {\n        Self(self.0.clone())\n    }\n}\n\nimpl HallSetObject {\n\n    fn new")],"C24"),
("y-hs-manual-clone2",[(Z,"#[derive(Clone)]\npub struct HallSetObject(","pub struct HallSetObject("),(Z,"impl HallSetObject {\n\n    fn new","impl Clone for HallSetObject {\n    fn clone(&self) -> Self {\n        HallSetObject(Arc::clone(&self.0))\n    }\n}\n\nimpl HallSetObject {\n\n    fn new")],"C24"),
("y-key-manual-eq2",[(K,"#[derive(PartialEq, Clone)]\npub struct TensorKey<const NLetters: u32>","#[derive(Clone)]\npub struct TensorKey<const NLetters: u32>"),(K,"impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {","impl<const N: u32> PartialEq for TensorKey<N> {\n    fn eq(&self, rhs: &Self) -> bool {\n        (self.size(), self.data()) == (rhs.size(), rhs.data())\n    }\n}\n\nimpl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {")],"C01 C05"),
("y-hk-assoc",[(H,"impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {\n","impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {\n    const KEY_MASK: DataType = make_mask(KEY_BITS, 0);\n"),(H,"(self.0 & make_mask(KEY_BITS, 0)) as","(self.0 & Self::KEY_MASK) as")],"C22"),
("y-basis-assoc",[(B,"impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {\n","impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {\n    const WIDTH: DimensionType = NLETTERS as DimensionType;\n"),(B,"result = result * (NLETTERS as DimensionType) + 1;","result = result * Self::WIDTH + 1;"),(B,"            result *= NLETTERS as DimensionType;","            result *= Self::WIDTH;")],"C03 C04"),
]
