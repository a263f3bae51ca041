#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs

//@include inc/seek.rs
//@include inc/paaio.rs
global size_of usize == 8;
use image::RgbaImage;
pub type Error = IoError;
//@extract libs/paa/src/pax.rs | enum PaXType
//@end
impl Clone for PaXType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@include inc/paaspec.rs
//@extract libs/paa/src/mipmap.rs | struct MipMap
//@pub
//@end
//@extract libs/paa/src/paa.rs | struct Paa
//@pub
//@end
impl MipMap { pub open spec fn v(&self) -> MapV { MapV { format: self.format, w: self.width, h: self.height, data: self.data@ } } }
pub open spec fn mvs(s: Seq<MipMap>) -> Seq<MapV> { s.map_values(|m: MipMap| m.v()) }
impl Paa { pub open spec fn v(&self) -> PaaV { PaaV { format: self.format, taggs: self.taggs.m(), maps: mvs(self.maps@) } } }
pub open spec fn iv(i: &RgbaImage) -> ImgV { ImgV { w: i.w(), h: i.h(), px: i.px(), bytes: i.bytes() } }

impl PaXType {
//@extract libs/paa/src/pax.rs | impl PaXType @ fn from_bytes
//@sub match bytes \{ ==> match (bytes[0], bytes[1]) {
//@sub \[(\w+), (\w+)\] => ==> (\1, \2) =>
//@spec
    ensures r == pax_of(bytes@)
//@entry
    proof {
        lemma_pax(bytes@, PaXType::DXT1); lemma_pax(bytes@, PaXType::DXT2); lemma_pax(bytes@, PaXType::DXT3); lemma_pax(bytes@, PaXType::DXT4); lemma_pax(bytes@, PaXType::DXT5);
        lemma_pax(bytes@, PaXType::RGBA4); lemma_pax(bytes@, PaXType::RGBA5); lemma_pax(bytes@, PaXType::RGBA8); lemma_pax(bytes@, PaXType::GRAYA);
        if pax_of(bytes@) is Some { let q = choose|q: PaXType| is_pax(bytes@, q); assert(is_pax(bytes@, q)); }
    }
//@end
//@extract libs/paa/src/pax.rs | impl PaXType @ fn as_bytes
//@spec
    ensures is_pax(r@, *self)
//@end
//@extract libs/paa/src/pax.rs | impl PaXType @ fn is_block_compressed
//@spec
    ensures r == blocks_of(*self) is Some
//@end
//@extract libs/paa/src/pax.rs | impl PaXType @ fn from_stream
//@sub I: Read ==> I: Seek
//@spec
    requires inside(*old(stream))
    ensures match r {
        Some(p) => ahead(*old(stream)).len() >= 2 && pax_of(ahead(*old(stream)).take(2)) == Some(p) && moved(*old(stream), *final(stream), 2),
        None => I::sfaulty() || ahead(*old(stream)).len() < 2 || pax_of(ahead(*old(stream)).take(2)) is None,
    }
//@end
}
impl Format {
//@extract libs/paa/src/pax.rs | impl From<PaXType> for Format @ fn from
//@spec
    requires blocks_of(pax) is Some
    ensures Some(r) == blocks_of(pax)
//@end
}
impl MipMap {
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn from_stream
//@sub I: Read ==> I: Seek
//@sub vec!\[0; (.*)\]\.into_boxed_slice\(\) ==> boxed(vec![0; \1])
//@sub buffer\.to_vec\(\) ==> unboxed(&buffer)
//@sub std::io::Error ==> io::Error
//@spec
    requires inside(*old(stream))
    ensures match (r, map_of(format, ahead(*old(stream)))) {
        (Ok(m), Some(v)) => m.v() == v && final(stream).data() == old(stream).data() && inside(*final(stream)),
        (Ok(_), None) => false,
        (Err(_), Some(_)) => I::sfaulty(),
        (Err(_), None) => true,
    }
//@entry
    let ghost s = ahead(*stream);
    proof { lemma_cut(stream.data(), stream.pos(), 0); lemma_cut_at(stream.data(), stream.pos(), 7); }
//@end
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn width
//@spec
    ensures r == self.v().w % 32768
//@end
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn is_compressed
//@spec
    ensures r == (self.v().w >= 32768)
//@end
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn height
//@spec
    ensures r == self.v().h
//@end
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn data
//@spec
    ensures r@ == self.v().data
//@end
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn format
//@spec
    ensures *r == self.v().format
//@end
//@extract libs/paa/src/mipmap.rs | impl MipMap @ fn get_image
//@attr #[verifier::spinoff_prover]
//@sub vec!\[0; (.*)\]\.into_boxed_slice\(\) ==> boxed(vec![0; \1])
//@spec
    requires drawable(self.v())
    ensures r is ImageRgba8 && r->ImageRgba8_0.w() == self.v().w % 32768 && r->ImageRgba8_0.h() == self.v().h && r->ImageRgba8_0.bytes() == drawn(self.v())
//@entry
    let ghost w = (self.width % 32768) as nat;
    proof { lemma_sizes(self.format, w, self.height as nat); }
//@before let mut buffer
    proof {
        assert(width as nat == w && height as nat == tall(self.height));
        assert(4 * width * height == 4 * w * tall(self.height));
        assert(4 * width * self.height == 4 * w * self.height);
    }
//@end
}
/// the blocks of a mip map: its data, unpacked when the top bit of the width says so
pub open spec fn blocks(m: MapV) -> Seq<u8> { if m.w >= 32768 { unpacked(m.data, room(m.format, (m.w % 32768) as nat, tall(m.h))) } else { m.data } }
pub open spec fn tall(h: u16) -> nat { ((h + 3) / 4 * 4) as nat }
pub open spec fn drawable(m: MapV) -> bool { m.w % 32768 > 0 && (m.w >= 32768 || m.data.len() >= room(m.format, m.w as nat, m.h as nat)) }
pub open spec fn drawn(m: MapV) -> Seq<u8> { picture(m.format, blocks(m), (m.w % 32768) as nat, tall(m.h)).take(4 * (m.w % 32768) * m.h) }
impl Paa {
//@extract libs/paa/src/paa.rs | impl Paa @ fn new
//@spec
    ensures r.format == format, r.taggs.m() == Map::<Seq<char>, Seq<u8>>::empty(), r.maps@.len() == 0
//@end
//@extract libs/paa/src/paa.rs | impl Paa @ fn format
//@spec
    ensures *r == self.v().format
//@end
//@extract libs/paa/src/paa.rs | impl Paa @ fn taggs
//@spec
    ensures r.m() == self.v().taggs
//@end
//@extract libs/paa/src/paa.rs | impl Paa @ fn maps
//@spec
    ensures mvs(r@) == self.v().maps
//@end
//@extract libs/paa/src/paa.rs | impl Paa @ fn read
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]
//@sub I: Seek \+ Read ==> I: Seek
//@sub std::str::from_utf8\(&(\w+)\) == Ok\("GGAT"\) ==> is_mark(&\1, &[71u8, 71u8, 65u8, 84u8])
//@sub while \{\n((?:.|\n)*?)\n(\s*is_mark\(.*\))\n\s*\} \{ ==> loop {\n\1\nif !(\2) { break; }
//@sub std::str::from_utf8\( ==> utf8(
//@sub std::io:: ==> io::
//@sub \|_\| ==> |_e|
//@sub vec!\[0; (.*)\]\.into_boxed_slice\(\) ==> boxed(vec![0; \1])
//@sub buffer\.to_vec\(\) ==> unboxed(&buffer)
//@sub seek\.clone_from_slice\(&offs\[(.*)\.\.(.*)\]\) ==> copy4(&mut seek, offs, \1, \2)
//@sub u32::from_le_bytes ==> u32_from_le_bytes
//@sub (paa\.format\.clone\(\))\.into\(\) ==> Format::from(\1)
//@spec
    requires input.pos() == 0
    ensures match (r, paa_of(input.data())) {
        (Ok(p), Some(v)) => p.v() == v,
        (Ok(_), None) => false,
        (Err(_), Some(_)) => I::sfaulty(),
        (Err(_), None) => true,
    }
//@entry
    let ghost d = input.data();
    proof { assert(tail_of(d, 0) =~= d); }
//@loopinit 0
    let ghost want = tags_of(ahead(input), Map::empty());
    proof { assert(ahead(input) =~= d.skip(2)); }
//@loop 0 loop
    invariant_except_break
        tags_of(ahead(input), paa.taggs.m()) == want,
    invariant
        inside(input), input.data() == d, paa.maps@.len() == 0, paa.format == pax,
    ensures
        want == Some(paa.taggs.m()),
    decreases ahead(input).len()
//@loopstart 0
    let ghost s = ahead(input);
    let ghost q = input.pos();
    let ghost t0 = paa.taggs.m();
    proof { lemma_cut(d, q, 0); }
//@loopend 0
    proof {
        let n = de32(s.subrange(8, 12));
        lemma_cut_at(d, q, 12 + n);
        assert(s.take(4) == ggat());
        assert(tail_of(d, q + 8).take(4) == s.subrange(8, 12));
        assert(tail_of(d, q + 4).take(4) == s.subrange(4, 8));
        assert(input.pos() == q + 12 + n);
        assert(tail_of(d, q + 12).take(n as int) == s.subrange(12, 12 + n));
        assert(tags_of(s, t0) == tags_of(s.skip(12 + n), t0.insert(decode_utf8(s.subrange(4, 8)), s.subrange(12, 12 + n))));
    }
//@before Ok\(paa\)
    proof { if paa.maps@.len() == 0 { assert(mvs(paa.maps@) =~= Seq::<MapV>::empty()); } }
//@loopinit 1
    let ghost tags = paa.taggs.m();
    let ghost total = offs@.len() / 4;
    proof { assert(mvs(paa.maps@) =~= Seq::<MapV>::empty()); }
//@loop 1 for
    invariant
        inside(input), input.data() == d, paa.taggs.m() == tags, paa.format == pax, offs@ == tags[sffo()], total == offs@.len() / 4,
        maps_of(d, pax, offs@, i as nat) == Some(mvs(paa.maps@)),
//@loopstart 1
    let ghost ms = paa.maps@;
    proof {
        if maps_of(d, pax, offs@, (i + 1) as nat) is None { lemma_maps_none(d, pax, offs@, (i + 1) as nat, total); }
    }
//@loopend 1
    proof { if paa.maps@.len() > ms.len() { assert(mvs(paa.maps@) =~= mvs(ms).push(paa.maps@[ms.len() as int].v())); } }
//@end
//@extract libs/paa/src/paa.rs | impl Paa @ fn write
//@attr #[verifier::spinoff_prover]
//@sub fn write\(image: &RgbaImage, output: &mut impl Write\) ==> fn write<W: Write>(image: &RgbaImage, output: &mut W)
//@sub let avg_color = image\s*\.pixels\(\)\s*\.map\(\|p\| \{((?:.|\n)*?)\}\)\s*\.fold\((.*), \|mut acc, p\| \{((?:.|\n)*?)\n\s*acc\s*\n?\s*\}\); ==> let px = image.pixels(); let avg_color: [u32; 4] = { let mut acc: [u32; 4] = \2; for p in px.iter() { let p: [u32; 4] = {\1}; \3 } acc };
//@sub let max_color = image\s*\.pixels\(\)\s*\.map\(\|p\| (.*)\)\s*\.fold\((.*), \|mut acc, p\| \{((?:.|\n)*?)\n\s*acc\s*\n?\s*\}\); ==> let px = image.pixels(); let max_color: [u8; 4] = { let mut acc: [u8; 4] = \2; for p in px.iter() { let p: [u8; 4] = \1; \3 } acc };
//@sub for _ in ==> for _k in it:
//@index 0
//@index 1
//@entry
    let ghost w0 = output.written();
    proof { if 0 < image.w() <= 0xffff && image.h() <= 0xffff { lemma_sizes(Format::Bc3, image.w() as nat, image.h() as nat); } }
//@sub? std::io:: ==> io::
//@sub (PaXType::DXT5\.clone\(\))\.into\(\) ==> Format::from(\1)
//@sub size_of::<u32>\(\) ==> 4usize
//@sub u32::from_le_bytes ==> u32_from_le_bytes
//@sub (\w+\[\d\])\.max\((\w+\[\d\])\) ==> max_u8(\1, \2)
//@spec
    ensures
        r is Ok ==> fits(iv(image)) && squeezed(Format::Bc3, image.bytes(), image.w() as nat, image.h() as nat).len() == room(Format::Bc3, image.w() as nat, image.h() as nat) && final(output).written() =~= old(output).written() + enc_paa(iv(image)),
        r is Err ==> !fits(iv(image)) || W::wfaulty(),
//@loopinit 0
    proof { assert(px@.len() == image.w() * image.h()); assert(0 < image.w() * image.h()) by (nonlinear_arith) requires image.w() > 0, image.h() > 0; }
//@loop 0 for
    invariant
        vs0@ == px@, ix0 <= vs0@.len(), px@.len() == image.px().len(), px@.len() <= 0xff_ffff, 
        forall|i: int| 0 <= i < px@.len() ==> (#[trigger] px@[i]).0 == image.px()[i],
        forall|c: int| 0 <= c < 4 ==> (#[trigger] acc@[c]) == chan(image.px(), ix0 as nat, c) && acc@[c] <= 255 * ix0,
    decreases vs0@.len() - ix0
//@loop 1 for
    invariant
        vs1@ == px@, ix1 <= vs1@.len(), px@.len() == image.px().len(),
        forall|i: int| 0 <= i < px@.len() ==> (#[trigger] px@[i]).0 == image.px()[i],
        forall|c: int| 0 <= c < 4 ==> (#[trigger] acc@[c]) == peak(image.px(), ix1 as nat, c),
    decreases vs1@.len() - ix1
//@loopinit 2
    let ghost w2 = output.written();
    proof { assert(w2 + zeros(0) =~= w2); }
//@loop 2 for
    invariant
        output.written() == w2 + zeros((4 * it.index@) as nat),
//@loopstart 2
    let ghost w3 = output.written();
//@loopend 2
    proof { lemma_zero32(); assert(output.written() =~= w2 + zeros((4 * it.index@ + 4) as nat)); }
//@before Ok\(\(\)\)
    proof {
        let i = iv(image); let n = image.px().len();
        let a = output.written();
        lemma_mean(image.px(), n, 0); lemma_mean(image.px(), n, 1); lemma_mean(image.px(), n, 2); lemma_mean(image.px(), n, 3);
        lemma_de_le(means(image.px())); lemma_de_le(peaks(image.px()));
        assert(max_color@ =~= peaks(image.px()));
        assert(w2 =~= w0 + seq![5u8, 255u8] + enc_tag(name_cgva(), means(image.px())) + enc_tag(name_cxam(), peaks(image.px())) + (ggat() + name_sffo() + le32(64) + le32(110)));
        assert(offsets().len() == 64);
        assert(a =~= w2 + zeros(60) + enc_map(i.w, i.h, squeezed(Format::Bc3, i.bytes, i.w as nat, i.h as nat)));
    }
//@end
}
pub proof fn lemma_sizes(f: Format, w: nat, h: nat)
    requires w <= 0x1_0000, h <= 0x1_0000
    ensures ({ let t = ((h + 3) / 4 * 4) as nat;
        &&& h <= t <= 0x1_0000 + 3 && t % 4 == 0 && (t + 3) / 4 == (h + 3) / 4
        &&& room(f, w, t) == room(f, w, h) <= 0x2_0000_0000 && room(f, w, h) >= 0
        &&& 0 <= 4 * w * h <= 4 * w * t <= 0x8_0000_0000
        &&& f == Format::Bc3 ==> w * h <= room(f, w, h)
    })
{
    let t = ((h + 3) / 4 * 4) as nat; let a = (w + 3) / 4; let b = (h + 3) / 4;
    assert(a * b <= 0x4001 * 0x4001) by (nonlinear_arith) requires a <= 0x4001, b <= 0x4001;
    assert(4 * w * h <= 4 * w * t) by (nonlinear_arith) requires h <= t;
    assert(4 * w * t <= 4 * 0x1_0000 * 0x1_0003) by (nonlinear_arith) requires w <= 0x1_0000, t <= 0x1_0003;
    assert(w * h <= a * b * 16) by (nonlinear_arith) requires w <= 4 * a, h <= 4 * b;
    assert(0 <= 4 * w * h) by (nonlinear_arith);
}
pub proof fn lemma_mean(px: Seq<[u8; 4]>, n: nat, c: int)
    requires 0 <= c < 4
    ensures chan(px, n, c) <= 255 * n, n > 0 ==> chan(px, n, c) / n <= 255
    decreases n
{
    if n > 0 {
        lemma_mean(px, (n - 1) as nat, c);
        let s = chan(px, n, c);
        assert(s / n <= 255) by (nonlinear_arith) requires s <= 255 * n, n > 0;
    }
}
pub proof fn lemma_de_le(s: Seq<u8>)
    requires s.len() == 4
    ensures le32(de32(s)) =~= s
{
    let a = s[0]; let b = s[1]; let c = s[2]; let d = s[3];
    let x = (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
    assert((x & 0xff) as u8 == a && ((x >> 8) & 0xff) as u8 == b && ((x >> 16) & 0xff) as u8 == c && ((x >> 24) & 0xff) as u8 == d) by (bit_vector)
        requires x == (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
}
// ---------------------------------------------------------------- reading what was written
pub proof fn lemma_tag(name: Seq<u8>, chars: Seq<char>, data: Seq<u8>, rest: Seq<u8>, acc: Map<Seq<char>, Seq<u8>>)
    requires name.len() == 4, data.len() <= u32::MAX, encode_utf8(chars) == name
    ensures tags_of(enc_tag(name, data) + rest, acc) == tags_of(rest, acc.insert(chars, data))
{
    let s = enc_tag(name, data) + rest;
    let n = data.len() as u32;
    lemma_le32(n); encode_utf8_valid_utf8(chars); encode_utf8_decode_utf8(chars);
    assert(s.take(4) =~= ggat());
    assert(s.subrange(4, 8) =~= name);
    assert(s.subrange(8, 12) =~= le32(n));
    assert(s.subrange(12, 12 + n) =~= data);
    assert(s.skip(12 + n) =~= rest);
}
pub open spec fn t_cgva() -> Seq<char> { "CGVA"@ }
pub open spec fn t_cxam() -> Seq<char> { "CXAM"@ }
pub proof fn lemma_names() ensures encode_utf8(t_cgva()) == name_cgva(), encode_utf8(t_cxam()) == name_cxam(), encode_utf8(sffo()) == name_sffo()
{
    reveal_strlit("CGVA"); reveal_strlit("CXAM"); reveal_strlit("SFFO");
    is_ascii_chars_encode_utf8(t_cgva()); is_ascii_chars_encode_utf8(t_cxam()); is_ascii_chars_encode_utf8(sffo());
    assert(encode_utf8(t_cgva()) =~= name_cgva()); assert(encode_utf8(t_cxam()) =~= name_cxam()); assert(encode_utf8(sffo()) =~= name_sffo());
}
pub open spec fn map_written(i: ImgV) -> MapV { MapV { format: Format::Bc3, w: i.w as u16, h: i.h as u16, data: squeezed(Format::Bc3, i.bytes, i.w as nat, i.h as nat) } }
pub open spec fn taggs_written(i: ImgV) -> Map<Seq<char>, Seq<u8>> { Map::empty().insert(t_cgva(), means(i.px)).insert(t_cxam(), peaks(i.px)).insert(sffo(), offsets()) }
pub proof fn lemma_map(w: u32, h: u32, data: Seq<u8>)
    requires w <= 0xffff, h <= 0xffff, data.len() <= 0xff_ffff
    ensures map_of(Format::Bc3, enc_map(w, h, data)) == Some(MapV { format: Format::Bc3, w: w as u16, h: h as u16, data })
{
    let s = enc_map(w, h, data); let n = data.len() as u32;
    lemma_le16(w as u16); lemma_le16(h as u16);
    assert(n <= 0xff_ffff ==> ((n & 0xff) as u8 as u32) | ((((n >> 8) & 0xff) as u8 as u32) << 8) | ((((n >> 16) & 0xff) as u8 as u32) << 16) == n) by (bit_vector);
    assert(s.take(2) =~= le16(w as u16)); assert(s.subrange(2, 4) =~= le16(h as u16)); assert(s.subrange(4, 7) =~= le24(n));
    assert(s.subrange(7, 7 + n) =~= data);
}
pub proof fn lemma_offsets(d: Seq<u8>, m: MapV, n: nat)
    requires 1 <= n <= 16, map_of(Format::Bc3, tail_of(d, 110)) == Some(m)
    ensures maps_of(d, PaXType::DXT5, offsets(), n) == Some(seq![m])
    decreases n
{
    lemma_le32(110); lemma_zero32(); lemma_le32(0);
    let o = offsets();
    if n == 1 {
        assert(o.subrange(0, 4) =~= le32(110));
        assert(maps_of(d, PaXType::DXT5, o, 0) == Some(Seq::<MapV>::empty()));
        assert(Seq::<MapV>::empty().push(m) =~= seq![m]);
    } else {
        lemma_offsets(d, m, (n - 1) as nat);
        assert(o.subrange(4 * (n - 1), 4 * n as int) =~= le32(0));
    }
}
/// A texture that was written reads back: its format, the mean and the highest colour, and one mip map of the picture's sides with its blocks,
/// from which a picture of those sides can be drawn.
pub proof fn theorem_reads_back(i: ImgV)
    requires fits(i), squeezed(Format::Bc3, i.bytes, i.w as nat, i.h as nat).len() == room(Format::Bc3, i.w as nat, i.h as nat)
    ensures
        paa_of(enc_paa(i)) == Some(PaaV { format: PaXType::DXT5, taggs: taggs_written(i), maps: seq![map_written(i)] }),
        taggs_written(i)[t_cgva()] == means(i.px), taggs_written(i)[t_cxam()] == peaks(i.px),
        map_written(i).w % 32768 == i.w, map_written(i).h == i.h, drawable(map_written(i)), blocks(map_written(i)) == squeezed(Format::Bc3, i.bytes, i.w as nat, i.h as nat),
{
    let d = enc_paa(i);
    let sq = squeezed(Format::Bc3, i.bytes, i.w as nat, i.h as nat);
    let m = enc_map(i.w, i.h, sq);
    let c = enc_tag(name_sffo(), offsets()) + m;
    let b = enc_tag(name_cxam(), peaks(i.px)) + c;
    let a = enc_tag(name_cgva(), means(i.px)) + b;
    assert(offsets().len() == 64);
    assert(d =~= seq![5u8, 255u8] + a);
    assert(d.take(2) =~= seq![5u8, 255u8]);
    lemma_pax(d.take(2), PaXType::DXT5);
    assert(d.skip(2) =~= a);
    lemma_names();
    let t0 = Map::<Seq<char>, Seq<u8>>::empty();
    lemma_tag(name_cgva(), t_cgva(), means(i.px), b, t0);
    let t1 = t0.insert(t_cgva(), means(i.px));
    lemma_tag(name_cxam(), t_cxam(), peaks(i.px), c, t1);
    let t2 = t1.insert(t_cxam(), peaks(i.px));
    lemma_tag(name_sffo(), sffo(), offsets(), m, t2);
    // what follows the tags is not taken for another one: sides with those bytes have no room
    assert(m.take(4) != ggat()) by {
        if m.take(4) == ggat() {
            assert(m.take(4)[0] == 0x47 && m.take(4)[1] == 0x47 && m.take(4)[2] == 0x41 && m.take(4)[3] == 0x54);
            assert(m[0] == 0x47 && m[1] == 0x47 && m[2] == 0x41 && m[3] == 0x54);
            let w = i.w as u16; let h = i.h as u16;
            assert(w == 0x4747) by (bit_vector) requires (w & 0xff) as u8 == 0x47, ((w >> 8) & 0xff) as u8 == 0x47;
            assert(h == 0x5441) by (bit_vector) requires (h & 0xff) as u8 == 0x41, ((h >> 8) & 0xff) as u8 == 0x54;
            lemma_sizes(Format::Bc3, i.w as nat, i.h as nat);
        }
    }
    assert(tags_of(m, taggs_written(i)) == Some(taggs_written(i)));
    assert(tail_of(d, 110) =~= m);
    lemma_map(i.w, i.h, sq);
    lemma_offsets(d, map_written(i), 16);
    reveal_strlit("CGVA"); reveal_strlit("CXAM"); reveal_strlit("SFFO");
    assert(t_cgva()[0] == 'C' && t_cgva()[1] == 'G' && t_cxam()[1] == 'X' && sffo()[0] == 'S');
}
/// what is read at a position is a piece of what lies ahead
pub proof fn lemma_cut_at(d: Seq<u8>, p: int, a: int)
    requires 0 <= p, 0 <= a
    ensures ({ let t = tail_of(d, p); let u = tail_of(d, p + a);
        &&& t.len() >= a ==> u == t.skip(a) && u.len() == t.len() - a
        &&& t.len() < a ==> u.len() == 0
        &&& forall|n: int| 0 <= n <= u.len() && t.len() >= a ==> #[trigger] u.take(n) == t.subrange(a, a + n) })
{
    let t = tail_of(d, p); let u = tail_of(d, p + a);
    if t.len() >= a {
        assert(u =~= t.skip(a));
        assert forall|n: int| 0 <= n <= u.len() implies #[trigger] u.take(n) == t.subrange(a, a + n) by { assert(u.take(n) =~= t.subrange(a, a + n)); }
    }
}
pub proof fn lemma_cut(d: Seq<u8>, p: int, x: int)
    requires 0 <= p
    ensures ({ let t = tail_of(d, p);
        &&& forall|a: int| (a == 2 || a == 4 || a == 7 || a == 8 || a == 12) ==> ({ let u = #[trigger] tail_of(d, p + a);
            &&& t.len() >= a ==> u == t.skip(a) && u.len() == t.len() - a
            &&& t.len() < a ==> u.len() == 0
            &&& forall|n: int| 0 <= n <= u.len() && t.len() >= a ==> #[trigger] u.take(n) == t.subrange(a, a + n) }) })
{ lemma_cut_at(d, p, 2); lemma_cut_at(d, p, 4); lemma_cut_at(d, p, 7); lemma_cut_at(d, p, 8); lemma_cut_at(d, p, 12); }
pub proof fn lemma_zero32() ensures le32(0) =~= seq![0u8, 0u8, 0u8, 0u8]
{ assert((0u32 & 0xff) as u8 == 0 && ((0u32 >> 8) & 0xff) as u8 == 0 && ((0u32 >> 16) & 0xff) as u8 == 0 && ((0u32 >> 24) & 0xff) as u8 == 0) by (bit_vector); }
}
fn main(){}
