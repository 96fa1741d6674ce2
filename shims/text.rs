pub mod text {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use stdx::*;
    verus! {
    // ---- the text of numbers, defined (not assumed) ----
    pub open spec fn digit_char(d: int) -> char { (48 + d) as char }
    pub open spec fn digit_val(c: char) -> Option<int> {
        if '0' <= c && c <= '9' { Some(c as int - 48) } else { None }
    }
    pub open spec fn nat_text(n: int) -> Seq<char>
        decreases n
    {
        if n < 10 { seq![digit_char(n)] } else { nat_text(n / 10).push(digit_char(n % 10)) }
    }
    pub open spec fn int_text(n: int) -> Seq<char> {
        if n < 0 { seq!['-'] + nat_text(-n) } else { nat_text(n) }
    }
    pub open spec fn digits_val(s: Seq<char>) -> Option<int>
        decreases s.len()
    {
        if s.len() == 0 { Some(0) } else {
            match (digits_val(s.drop_last()), digit_val(s.last())) {
                (Some(a), Some(d)) => Some(a * 10 + d),
                _ => None,
            }
        }
    }
    pub open spec fn nat_of(s: Seq<char>) -> Option<int> {
        if s.len() == 0 { None } else { digits_val(s) }
    }
    // Rust's integer grammar: one optional sign ('-' only for signed types), then digits.
    pub open spec fn int_of(s: Seq<char>, signed: bool, lo: int, hi: int) -> Option<int> {
        let v = if s.len() > 0 && s[0] == '+' { nat_of(s.skip(1)) }
            else if s.len() > 0 && s[0] == '-' && signed {
                match nat_of(s.skip(1)) { Some(n) => Some(-n), None => None }
            } else { nat_of(s) };
        match v { Some(n) => if lo <= n && n <= hi { Some(n) } else { None }, None => None }
    }
    pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
    pub open spec fn bool_of(s: Seq<char>) -> Option<bool> {
        if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None }
    }
    pub uninterp spec fn f64_text(v: f64) -> Seq<char>;
    pub uninterp spec fn f64_nan(v: f64) -> bool;
    pub uninterp spec fn f32_nan(v: f32) -> bool;
    // the conversion `v as f64`
    pub uninterp spec fn f32_wide(v: f32) -> f64;
    #[verifier::external_body]
    pub broadcast proof fn ax_f32_wide(v: f32, r: f64)
        ensures #[trigger] vstd::float::float_cast_spec::<f32, f64>(v, r) ==> r == f32_wide(v) {}
    // strings are equal when their characters are
    pub uninterp spec fn str_with(s: Seq<char>) -> &'static str;
    #[verifier::external_body]
    pub broadcast proof fn ax_str(a: &str)
        ensures str_with(#[trigger] a@) == a {}

    // ---- assumed: what `to_string` and `parse` of the standard library do ----
    #[verifier::external_body]
    pub broadcast proof fn ax_bool(s: Seq<char>)
        ensures #[trigger] from_text::<bool>(s) == bool_of(s) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i8(s: Seq<char>)
        ensures #[trigger] from_text::<i8>(s) == (match int_of(s, true, i8::MIN as int, i8::MAX as int) { Some(n) => Some(n as i8), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i16(s: Seq<char>)
        ensures #[trigger] from_text::<i16>(s) == (match int_of(s, true, i16::MIN as int, i16::MAX as int) { Some(n) => Some(n as i16), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i32(s: Seq<char>)
        ensures #[trigger] from_text::<i32>(s) == (match int_of(s, true, i32::MIN as int, i32::MAX as int) { Some(n) => Some(n as i32), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i64(s: Seq<char>)
        ensures #[trigger] from_text::<i64>(s) == (match int_of(s, true, i64::MIN as int, i64::MAX as int) { Some(n) => Some(n as i64), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u8(s: Seq<char>)
        ensures #[trigger] from_text::<u8>(s) == (match int_of(s, false, 0, u8::MAX as int) { Some(n) => Some(n as u8), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u16(s: Seq<char>)
        ensures #[trigger] from_text::<u16>(s) == (match int_of(s, false, 0, u16::MAX as int) { Some(n) => Some(n as u16), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u32(s: Seq<char>)
        ensures #[trigger] from_text::<u32>(s) == (match int_of(s, false, 0, u32::MAX as int) { Some(n) => Some(n as u32), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u64(s: Seq<char>)
        ensures #[trigger] from_text::<u64>(s) == (match int_of(s, false, 0, u64::MAX as int) { Some(n) => Some(n as u64), None => None }) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_f64(v: f64)
        ensures !f64_nan(v) ==> from_text::<f64>(#[trigger] f64_text(v)) == Some(v) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_f32(v: f32)
        ensures !f32_nan(v) ==> from_text::<f32>(#[trigger] f64_text(f32_wide(v))) == Some(v) {}
    // Numbers print as plain ASCII words: digits, sign, point, exponent, "inf", "NaN".
    pub open spec fn plain_char(c: char) -> bool {
        ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '-' || c == '.' || c == '+'
    }
    pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_char(#[trigger] s[i]) }
    #[verifier::external_body]
    pub broadcast proof fn ax_f64_plain(v: f64)
        ensures plain(#[trigger] f64_text(v)), f64_text(v).len() > 0, f64_text(v) != "."@, f64_text(v) != ".."@ {}

    #[verifier::external_body]
    pub broadcast proof fn ax_i64_string(v: i64, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<i64>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u64_string(v: u64, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<u64>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_f64_string(v: f64, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<f64>(&v, s) ==> s@ == f64_text(v) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_char_string(v: char, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&v, s) ==> s@ == seq![v] {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i8_string(v: i8, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<i8>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i16_string(v: i16, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<i16>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_i32_string(v: i32, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<i32>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u8_string(v: u8, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<u8>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u16_string(v: u16, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<u16>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_u32_string(v: u32, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<u32>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_usize_string(v: usize, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<usize>(&v, s) ==> s@ == int_text(v as int) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_bool_string(v: bool, s: String)
        ensures #[trigger] vstd::string::to_string_from_display_ensures::<bool>(&v, s) ==> s@ == (if v { "true"@ } else { "false"@ }) {}
    pub broadcast group group_text {
        ax_bool, ax_i8, ax_i16, ax_i32, ax_i64, ax_u8, ax_u16, ax_u32, ax_u64, ax_f64, ax_f32, ax_f64_plain, ax_f32_wide, ax_str,
        ax_i64_string, ax_u64_string, ax_i8_string, ax_i16_string, ax_i32_string, ax_u8_string, ax_u16_string, ax_u32_string, ax_usize_string, ax_bool_string, ax_f64_string, ax_char_string,
    }

    // ---- proved: printing and parsing integers are inverse ----
    pub proof fn lemma_nat_text(n: int)
        requires 0 <= n
        ensures nat_of(nat_text(n)) == Some(n), nat_text(n).len() > 0,
            forall|i: int| 0 <= i < nat_text(n).len() ==> '0' <= #[trigger] nat_text(n)[i] && nat_text(n)[i] <= '9',
        decreases n
    {
        if n < 10 {
            let s = nat_text(n);
            assert(s =~= seq![digit_char(n)]);
            assert(s.drop_last() =~= Seq::<char>::empty());
            assert(digits_val(s.drop_last()) == Some(0int));
            assert(s.last() == digit_char(n));
        } else {
            lemma_nat_text(n / 10);
            let s = nat_text(n);
            assert(s.drop_last() =~= nat_text(n / 10));
            assert(s.last() == digit_char(n % 10));
        }
    }
    pub proof fn lemma_int_text(n: int, signed: bool, lo: int, hi: int)
        requires lo <= n <= hi, signed || 0 <= n
        ensures int_of(int_text(n), signed, lo, hi) == Some(n), plain(int_text(n)), int_text(n).len() > 0,
            int_text(n) != "."@, int_text(n) != ".."@,
    {
        reveal_strlit("."); reveal_strlit("..");
        if n < 0 {
            lemma_nat_text(-n);
            assert(int_text(n).skip(1) =~= nat_text(-n));
            assert(int_text(n)[0] == '-');
            assert forall|i: int| 0 <= i < int_text(n).len() implies plain_char(#[trigger] int_text(n)[i]) by {
                if i > 0 { assert(int_text(n)[i] == nat_text(-n)[i - 1]); }
            }
        } else {
            lemma_nat_text(n);
            assert(int_text(n)[0] == nat_text(n)[0]);
        }
    }
    }
}
