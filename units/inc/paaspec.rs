// ---------------------------------------------------------------- the layout of a texture file
pub struct MapV { pub format: Format, pub w: u16, pub h: u16, pub data: Seq<u8> }
pub struct PaaV { pub format: PaXType, pub taggs: Map<Seq<char>, Seq<u8>>, pub maps: Seq<MapV> }
pub open spec fn pax_bytes(p: PaXType) -> (u8, u8) {
    match p {
        PaXType::DXT1 => (1, 255), PaXType::DXT2 => (2, 255), PaXType::DXT3 => (3, 255), PaXType::DXT4 => (4, 255), PaXType::DXT5 => (5, 255),
        PaXType::RGBA4 => (0x44, 0x44), PaXType::RGBA5 => (0x15, 0x55), PaXType::RGBA8 => (0x88, 0x88), PaXType::GRAYA => (0x80, 0x80),
    }
}
pub open spec fn is_pax(b: Seq<u8>, p: PaXType) -> bool { pax_bytes(p) == (b[0], b[1]) }
/// the two bytes of the format
pub open spec fn pax_of(b: Seq<u8>) -> Option<PaXType> { if exists|p: PaXType| is_pax(b, p) { Some(choose|p: PaXType| is_pax(b, p)) } else { None } }
pub proof fn lemma_pax(b: Seq<u8>, p: PaXType)
    ensures is_pax(b, p) ==> pax_of(b) == Some(p)
{
    if is_pax(b, p) { let q = choose|q: PaXType| is_pax(b, q); assert(is_pax(b, q)); assert(q == p); }
}
pub open spec fn blocks_of(p: PaXType) -> Option<Format> {
    match p { PaXType::DXT1 => Some(Format::Bc1), PaXType::DXT3 => Some(Format::Bc2), PaXType::DXT5 => Some(Format::Bc3), _ => None }
}
pub open spec fn ggat() -> Seq<u8> { seq![0x47u8, 0x47, 0x41, 0x54] }
/// tags: GGAT, a name of four bytes, a length, that many bytes; a later one of a name replaces an earlier one
pub open spec fn tags_of(s: Seq<u8>, acc: Map<Seq<char>, Seq<u8>>) -> Option<Map<Seq<char>, Seq<u8>>>
    decreases s.len()
{
    if s.len() < 4 { None }
    else if s.take(4) != ggat() { Some(acc) }
    else if s.len() < 12 || !valid_utf8(s.subrange(4, 8)) || s.len() < 12 + de32(s.subrange(8, 12)) { None }
    else { let n = de32(s.subrange(8, 12)); tags_of(s.skip(12 + n), acc.insert(decode_utf8(s.subrange(4, 8)), s.subrange(12, 12 + n))) }
}
/// a mip map: width, height, a length of three bytes, that many bytes
pub open spec fn map_of(f: Format, s: Seq<u8>) -> Option<MapV> {
    if s.len() < 7 || s.len() < 7 + de24(s.subrange(4, 7)) { None }
    else { Some(MapV { format: f, w: de16(s.take(2)), h: de16(s.subrange(2, 4)), data: s.subrange(7, 7 + de24(s.subrange(4, 7))) }) }
}
/// the mip maps at the first n of the listed offsets, zeros left out
pub open spec fn maps_of(d: Seq<u8>, p: PaXType, offs: Seq<u8>, n: nat) -> Option<Seq<MapV>>
    decreases n
{
    if n == 0 { Some(Seq::empty()) } else {
        match maps_of(d, p, offs, (n - 1) as nat) { None => None, Some(ms) => {
            let o = de32(offs.subrange(4 * (n - 1), 4 * n as int));
            if o == 0 { Some(ms) } else {
                match blocks_of(p) { None => None, Some(f) => match map_of(f, tail_of(d, o as int)) { None => None, Some(m) => Some(ms.push(m)) } }
            }
        } }
    }
}
pub open spec fn sffo() -> Seq<char> { "SFFO"@ }
pub open spec fn paa_of(d: Seq<u8>) -> Option<PaaV> {
    if d.len() < 2 { None } else { match pax_of(d.take(2)) { None => None, Some(p) => match tags_of(d.skip(2), Map::empty()) { None => None, Some(t) =>
        if t.contains_key(sffo()) { match maps_of(d, p, t[sffo()], t[sffo()].len() / 4) { None => None, Some(ms) => Some(PaaV { format: p, taggs: t, maps: ms }) } }
        else { Some(PaaV { format: p, taggs: t, maps: Seq::empty() }) } } } }
}
pub proof fn lemma_maps_none(d: Seq<u8>, p: PaXType, offs: Seq<u8>, n: nat, m: nat)
    requires n <= m, maps_of(d, p, offs, n) is None
    ensures maps_of(d, p, offs, m) is None
    decreases m
{ if n < m { lemma_maps_none(d, p, offs, n, (m - 1) as nat); } }
// ---------------------------------------------------------------- what is written
pub open spec fn chan(px: Seq<[u8; 4]>, n: nat, c: int) -> nat
    decreases n
{ if n == 0 { 0 } else { chan(px, (n - 1) as nat, c) + px[n - 1]@[c] as nat } }
pub open spec fn peak(px: Seq<[u8; 4]>, n: nat, c: int) -> u8
    decreases n
{ if n == 0 { 0 } else if px[n - 1]@[c] > peak(px, (n - 1) as nat, c) { px[n - 1]@[c] } else { peak(px, (n - 1) as nat, c) } }
/// the mean of a channel, rounded down
pub open spec fn mean(px: Seq<[u8; 4]>, c: int) -> u8 { (chan(px, px.len(), c) / px.len()) as u8 }
pub open spec fn means(px: Seq<[u8; 4]>) -> Seq<u8> { seq![mean(px, 0), mean(px, 1), mean(px, 2), mean(px, 3)] }
pub open spec fn peaks(px: Seq<[u8; 4]>) -> Seq<u8> { let n = px.len(); seq![peak(px, n, 0), peak(px, n, 1), peak(px, n, 2), peak(px, n, 3)] }
pub open spec fn name_cgva() -> Seq<u8> { seq![0x43u8, 0x47, 0x56, 0x41] }
pub open spec fn name_cxam() -> Seq<u8> { seq![0x43u8, 0x58, 0x41, 0x4d] }
pub open spec fn name_sffo() -> Seq<u8> { seq![0x53u8, 0x46, 0x46, 0x4f] }
pub open spec fn enc_tag(name: Seq<u8>, data: Seq<u8>) -> Seq<u8> { ggat() + name + le32(data.len() as u32) + data }
pub open spec fn enc_map(w: u32, h: u32, data: Seq<u8>) -> Seq<u8> { le16(w as u16) + le16(h as u16) + le24(data.len() as u32) + data }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn offsets() -> Seq<u8> { le32(110) + zeros(60) }
pub struct ImgV { pub w: u32, pub h: u32, pub px: Seq<[u8; 4]>, pub bytes: Seq<u8> }
pub open spec fn enc_paa(i: ImgV) -> Seq<u8> {
    seq![5u8, 255u8] + enc_tag(name_cgva(), means(i.px)) + enc_tag(name_cxam(), peaks(i.px)) + enc_tag(name_sffo(), offsets())
        + enc_map(i.w, i.h, squeezed(Format::Bc3, i.bytes, i.w as nat, i.h as nat))
}
/// what the format has room for
pub open spec fn fits(i: ImgV) -> bool { 0 < i.w <= 0x7fff && 0 < i.h <= 0xffff && room(Format::Bc3, i.w as nat, i.h as nat) <= 0xff_ffff }
