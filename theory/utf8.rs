pub mod utf8_theory {
    use vstd::prelude::*;
    use vstd::utf8::*;
    verus! {
    pub proof fn lemma_scalar_ascii(c: char)
        requires (c as u32) < 0x80
        ensures encode_scalar(c as u32) =~= seq![c as u8]
    {
        let s = seq![c];
        assert(is_ascii_chars(s));
        is_ascii_chars_encode_utf8(s);
        assert(s.drop_first() =~= seq![]);
        assert(encode_utf8(s) =~= encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
        assert(encode_utf8(s.drop_first()) =~= seq![]);
    }
    pub proof fn lemma_scalar_high(c: u32, i: int)
        requires 0x80 <= c <= 0x10FFFF, 0 <= i < encode_scalar(c).len()
        ensures encode_scalar(c)[i] >= 0x80
    {
        assert(forall|x: u8| #![auto] (0x80u8 | x) >= 0x80) by (bit_vector);
        assert(forall|x: u8| #![auto] (0xC0u8 | x) >= 0x80) by (bit_vector);
        assert(forall|x: u8| #![auto] (0xE0u8 | x) >= 0x80) by (bit_vector);
        assert(forall|x: u8| #![auto] (0xF0u8 | x) >= 0x80) by (bit_vector);
        let s = encode_scalar(c);
        assert(has_width_1_encoding(c) ==> false);
        assert(leading_byte_width_2(c) >= 0x80);
        assert(leading_byte_width_3(c) >= 0x80);
        assert(leading_byte_width_4(c) >= 0x80);
        assert(s.len() > 0 ==> s[0] >= 0x80);
        assert(s.len() <= 4);
    }
    /// An ASCII byte occurs in the UTF-8 form exactly when the character occurs in the text.
    pub proof fn lemma_byte(t: Seq<char>, b: u8)
        requires b < 0x80
        ensures encode_utf8(t).contains(b) <==> t.contains(b as char)
        decreases t.len()
    {
        if t.len() > 0 {
            let c = t[0];
            let rest = t.drop_first();
            lemma_byte(rest, b);
            let h = encode_scalar(c as u32);
            assert(encode_utf8(t) =~= h + encode_utf8(rest));
            assert(h.contains(b) <==> c == b as char) by {
                if (c as u32) < 0x80 {
                    lemma_scalar_ascii(c);
                    assert(h =~= seq![c as u8]);
                    if c == b as char { assert(h[0] == b); }
                } else if h.contains(b) {
                    let i = choose|i: int| 0 <= i < h.len() && h[i] == b;
                    assert(c as u32 <= 0x10FFFF);
                    lemma_scalar_high(c as u32, i);
                }
            }
            let e = encode_utf8(t);
            if e.contains(b) {
                let i = choose|i: int| 0 <= i < e.len() && e[i] == b;
                if i < h.len() { assert(h[i] == b); assert(t[0] == b as char); }
                else {
                    assert(encode_utf8(rest)[i - h.len()] == b);
                    let j = choose|j: int| 0 <= j < rest.len() && rest[j] == b as char;
                    assert(t[j + 1] == b as char);
                }
            }
            if t.contains(b as char) {
                let j = choose|j: int| 0 <= j < t.len() && t[j] == b as char;
                if j == 0 {
                    let i = choose|i: int| 0 <= i < h.len() && h[i] == b;
                    assert(e[i] == b);
                } else {
                    assert(rest[j - 1] == b as char);
                    let i = choose|i: int| 0 <= i < encode_utf8(rest).len() && encode_utf8(rest)[i] == b;
                    assert(e[h.len() + i] == b);
                }
            }
        } else {
            assert(encode_utf8(t) =~= seq![]);
        }
    }
    pub proof fn lemma_utf8_nonempty(t: Seq<char>)
        requires t.len() > 0
        ensures encode_utf8(t).len() > 0
    {
        assert(encode_utf8(t) =~= encode_scalar(t[0] as u32) + encode_utf8(t.drop_first()));
        let c = t[0] as u32;
        if c < 0x80 { lemma_scalar_ascii(t[0]); }
        assert(encode_scalar(c).len() > 0);
    }
    pub proof fn lemma_utf8_back(t: Seq<char>)
        ensures valid_utf8(encode_utf8(t)), decode_utf8(encode_utf8(t)) == t
    {
        encode_utf8_valid_utf8(t);
        encode_utf8_decode_utf8(t);
    }
    }
}
