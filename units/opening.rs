// The opening of a profile, for any number of tags and any stream. Lines marked with properties are for those only.
@INCLUDE profile.inc

// All threads share is the global context: no other static, no lock or cell elsewhere. //#C27
@ABSENT src/**/*.rs (?<!')\bstatic\b(?! GLOBAL_CONTEXT: Lazy<Mutex<Context>> =)|thread_local|Atomic|Cell\b|RwLock|Condvar|Once|\bspawn\b|\basm!|extern //#C27
@ABSENT src/**/*.rs!src/types/profile.rs GLOBAL_CONTEXT\s*\.|\block\b //#C27
@ABSENT src/types/profile.rs (?<!GLOBAL_CONTEXT)\.lock\b|\btransmute\b|\*mut\b //#C27
@SUB src/types/profile.rs \bGLOBAL_CONTEXT\s*\. ==> global. //#C27
// The global context. A thread which has locked it has it for itself until it drops what `lock` gave it; it finds it in whatever
// state earlier opens left it. `lock` fails only after a panic under the lock, which C11 excludes; `try_lock` may fail at any time.
// A second `lock` while the first one is held does not pass the borrow checker. //#C27
pub struct Global; //#C27
#[derive(Debug)] //#C27
pub struct Busy; //#C27
impl Global { //#C27
    #[verifier::external_body] //#C27
    pub fn lock<'a>(&'a mut self) -> (r: core::result::Result<&'a mut Context, Busy>) ensures r is Ok { unimplemented!() } //#C27
    #[verifier::external_body] //#C27
    pub fn try_lock<'a>(&'a mut self) -> (r: core::result::Result<&'a mut Context, Busy>) { unimplemented!() } //#C27
} //#C27
/// An opened file, or the error opening it gives.
pub uninterp spec fn opening<P>(p: P, create: bool) -> core::result::Result<Io, Error>;
pub trait AsRef<T> {}
pub struct Path;
pub type File = Io;
impl Io {
    #[verifier::external_body]
    pub fn open<P>(p: P) -> (r: io::Result<Io>) ensures r == opening(p, false), r is Ok ==> r->Ok_0.pos() == 0 && r->Ok_0.error() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P>(p: P) -> (r: io::Result<Io>) ensures r == opening(p, true), r is Ok ==> r->Ok_0.pos() == 0 && r->Ok_0.error() is None { unimplemented!() }
}
@STRUCT src/io.rs AccessMode

// ---- what an opened profile is --------------------------------------------------------------
pub open spec fn spec_header(d: Seq<u8>) -> ICCHeader { header_of(d.subrange(0, 128)) }
pub open spec fn spec_count(d: Seq<u8>) -> u32 { number_of(d.subrange(128, 132)) }
pub open spec fn spec_entry(d: Seq<u8>, i: int) -> TagEntry { entry_of(d.subrange(132 + 12 * i, 144 + 12 * i)) }
pub open spec fn limit_of(h: ICCHeader, size: nat) -> int { if h.size < size { h.size as int } else { size as int } }
/// The entries kept of the first n.
pub open spec fn kept(data: Seq<u8>, n: nat, limit: int) -> Seq<TagEntry> decreases n {
    if n == 0 { seq![] } else {
        let (k, e) = (kept(data, (n - 1) as nat, limit), spec_entry(data, n - 1));
        if e.offset + e.size <= limit { k.push(e) } else { k }
    }
}
pub open spec fn tags(k: Seq<TagEntry>, count: usize, names: Seq<Signature>, offsets: Seq<usize>, sizes: Seq<usize>) -> bool {
    &&& count == k.len()
    &&& forall|i: int| 0 <= i < k.len() ==> #[trigger] names[i] == k[i].sig
    &&& forall|i: int| 0 <= i < k.len() ==> #[trigger] offsets[i] == k[i].offset
    &&& forall|i: int| 0 <= i < k.len() ==> #[trigger] sizes[i] == k[i].size
}
/// The header fields of a profile are those of the file.
pub open spec fn described(h: ICCHeader, version: u32, device_class: Signature, color_space: Signature, pcs: Signature, rendering_intent: u32, flags: u32,
    manufacturer: u32, model: u32, attributes: u64, creator: u32, created: NaiveDateTime, profile_id: ProfileID, is_write: bool) -> bool
{
    &&& version == h.version && device_class == h.device_class && color_space == h.color_space && pcs == h.pcs
    &&& rendering_intent == h.rendering_intent && flags == h.flags && manufacturer == h.manufacturer.0
    &&& model == h.model && attributes == h.attributes && creator == h.creator.0
    &&& date_of(h.date) == Some(created) && profile_id == h.profile_id && !is_write
}
proof fn link_prefix(n: Seq<Signature>, o: Seq<usize>, s: Seq<usize>, n2: Seq<Signature>, o2: Seq<usize>, s2: Seq<usize>, x: usize, y: usize, j: nat)
    requires forall|i: int| 0 <= i < j ==> n[i] == n2[i] && o[i] == o2[i] && s[i] == s2[i],
    ensures link(n, o, s, x, y, j) == link(n2, o2, s2, x, y, j),
    decreases j,
{
    if j > 0 { link_prefix(n, o, s, n2, o2, s2, x, y, (j - 1) as nat); }
}
proof fn links_prefix(n: Seq<Signature>, o: Seq<usize>, s: Seq<usize>, n2: Seq<Signature>, o2: Seq<usize>, s2: Seq<usize>, c: nat)
    requires forall|i: int| 0 <= i < c ==> n[i] == n2[i] && o[i] == o2[i] && s[i] == s2[i],
    ensures forall|x: usize, y: usize, j: nat| j <= c ==> #[trigger] link(n2, o2, s2, x, y, j) == link(n, o, s, x, y, j),
{
    assert forall|x: usize, y: usize, j: nat| j <= c implies #[trigger] link(n2, o2, s2, x, y, j) == link(n, o, s, x, y, j) by { link_prefix(n, o, s, n2, o2, s2, x, y, j) }
}
/// C11: a stream error is returned as it is, and what is wrong with a profile is signalled once.
pub open spec fn rejected(io: Io, e: Error, error: Option<Error>, before: Seq<ErrorCode>, after: Seq<ErrorCode>) -> bool {
    match error {
        Some(f) => e == f && after == before,
        None => {
            &&& e == Error::Kind(ErrorKind::InvalidData)
            &&& after == before.push(ErrorCode::BadSignature) && spec_header(io.data()).magic.0 != 0x61637370
                || after == before.push(ErrorCode::Range) && spec_header(io.data()).magic.0 == 0x61637370
                    && (date_of(spec_header(io.data()).date) is None || spec_count(io.data()) > 100)
        }
    }
}

impl Profile {
    pub closed spec fn blank(&self) -> bool {
        self.tag_count == 0 && !self.is_write && (forall|i: int| 0 <= i < 100 ==> self.tag_linked@[i] is None)
    }
    pub closed spec fn for_writing(&self) -> bool {
        self.tag_count == 0 && self.is_write && (forall|i: int| 0 <= i < 100 ==> self.tag_linked@[i] is None)
    }
    pub closed spec fn stream(&self) -> Option<Io> { match self.io { Some(b) => Some(*b), None => None } }
    /// C12
    pub closed spec fn fields(&self, h: ICCHeader) -> bool {
        described(h, self.version, self.device_class, self.color_space, self.pcs, self.rendering_intent, self.flags, self.manufacturer,
            self.model, self.attributes, self.creator, self.created, self.profile_id, self.is_write)
    }
    /// C13
    pub closed spec fn directory(&self, k: Seq<TagEntry>) -> bool {
        tags(k, self.tag_count, self.tag_names@, self.tag_offsets@, self.tag_sizes@)
    }
    /// C14
    pub closed spec fn linked(&self) -> bool { links(self.tag_names@, self.tag_offsets@, self.tag_sizes@, self.tag_linked@, self.tag_count as nat) }
    pub open spec fn opened(&self, io: Io) -> bool {
        &&& true
        &&& spec_header(io.data()).magic.0 == 0x61637370 && date_of(spec_header(io.data()).date) is Some && spec_count(io.data()) <= 100 //#C11
        &&& self.stream() is Some && self.stream()->0.error() is None //#C11
        &&& self.fields(spec_header(io.data())) //#C12
        &&& self.directory(kept(io.data(), spec_count(io.data()) as nat, limit_of(spec_header(io.data()), io.size()))) //#C13
        &&& self.linked() //#C14
    }

@FN src/types/profile.rs Profile::new
    ensures r.blank(), r.stream() is None, /*NOT-VACUOUS*/ true
@END

    #[verifier::loop_isolation(false)]
@FN src/types/profile.rs Profile::read_header_thr
    requires
        old(self).blank(),
        old(self).stream() is Some, old(self).stream()->0.error() is None, old(self).stream()->0.pos() == 0,
    ensures
        /*NOT-VACUOUS*/ true,
        r is Ok ==> final(self).opened(old(self).stream()->0),
        r is Ok ==> final(context).signals() == old(context).signals(), //#C11
        r is Err ==> final(self).stream() is Some && rejected(old(self).stream()->0, r->Err_0, final(self).stream()->0.error(), old(context).signals(), final(context).signals()), //#C11
@START
    let ghost io0 = self.stream()->0;
    let ghost data = io0.data();
    let ghost h = spec_header(data);
    let ghost limit = limit_of(h, io0.size());
    let ghost signals = context.signals();
@AFTER let io = match self\.io \{[^}]*\};
        let ghost fin = *final(io);
@RANGE it for (\w+) in (0)\s*\.\.\s*(tag_count)\b
    invariant
        *final(io) == fin, after_borrow(self.io) is Some && *(after_borrow(self.io)->0) == fin,
        io.error() is None, io.pos() == 132 + 12 * it, io.same(&io0), data == io0.data(), h == spec_header(data),
        tag_count <= 100, it <= it_end, it_end == tag_count, self.tag_count <= it,
        tag_count == spec_count(data),
        date_of(h.date) is Some, //#C11
        signals == context.signals(), signals == old(context).signals(), //#C11
        described(h, self.version, self.device_class, self.color_space, self.pcs, self.rendering_intent, self.flags, self.manufacturer, //#C12
            self.model, self.attributes, self.creator, self.created, self.profile_id, self.is_write), //#C12
        header_size == limit, limit == limit_of(h, io0.size()), //#C13
        tags(kept(data, it as nat, limit), self.tag_count, self.tag_names@, self.tag_offsets@, self.tag_sizes@), //#C13
        links(self.tag_names@, self.tag_offsets@, self.tag_sizes@, self.tag_linked@, self.tag_count as nat), //#C14
        forall|i: int| self.tag_count <= i < 100 ==> self.tag_linked@[i] is None, //#C14
    decreases it_end - it,
    @BODY
    let ghost k = kept(data, (it - 1) as nat, limit);
    let ghost e = spec_entry(data, it - 1);
    let ghost (names, offsets, sizes) = (self.tag_names@, self.tag_offsets@, self.tag_sizes@); //#C14
    let ghost c0 = self.tag_count;
    @TAIL
    proof { links_prefix(names, offsets, sizes, self.tag_names@, self.tag_offsets@, self.tag_sizes@, c0 as nat); } //#C14
@BEFORE for \w+ in 0\s*\.\.\s*(?!tag_count)[\w.]+ 
    let ghost (o, s) = (self.tag_offsets@[c0 as int], self.tag_sizes@[c0 as int]); //#C14
    proof { links_prefix(names, offsets, sizes, self.tag_names@, self.tag_offsets@, self.tag_sizes@, c0 as nat); } //#C14
@RANGE jt for (\w+) in (0)\s*\.\.\s*((?!tag_count)[\w.]+)\b
    invariant
        self.tag_count == c0, c0 < 100, jt <= jt_end, jt_end == c0,
        described(h, self.version, self.device_class, self.color_space, self.pcs, self.rendering_intent, self.flags, self.manufacturer, //#C12
            self.model, self.attributes, self.creator, self.created, self.profile_id, self.is_write), //#C12
        c0 == k.len(), //#C13
        tags(k.push(e), (c0 + 1) as usize, self.tag_names@, self.tag_offsets@, self.tag_sizes@), //#C13
        o == tag.offset && s == tag.size && o == self.tag_offsets@[c0 as int] && s == self.tag_sizes@[c0 as int], //#C14
        links(self.tag_names@, self.tag_offsets@, self.tag_sizes@, self.tag_linked@, c0 as nat), //#C14
        self.tag_linked@[c0 as int] == link(self.tag_names@, self.tag_offsets@, self.tag_sizes@, o, s, jt as nat), //#C14
        forall|i: int| c0 < i < 100 ==> self.tag_linked@[i] is None, //#C14
    decreases jt_end - jt,
@END

@FN src/types/profile.rs Profile::open_from_file_thr
    ensures
        /*NOT-VACUOUS*/ true,
        mode is Read ==> (match opening(filename, false) {
            Err(e) => r == core::result::Result::<Box<Profile>, Error>::Err(e) && final(context).signals() == old(context).signals(), //#C11,C25
            Ok(io) => match r { //#C11,C12,C13,C14
                Ok(p) => { //#C11,C12,C13,C14
                    &&& p.opened(io) //#C11,C12,C13,C14
                    &&& final(context).signals() == old(context).signals() //#C11
                } //#C11,C12,C13,C14
                Err(e) => { //#C11,C12,C13,C14
                    &&& true //#C11,C12,C13,C14
                    &&& exists|error: Option<Error>| rejected(io, e, error, old(context).signals(), final(context).signals()) //#C11
                } //#C11,C12,C13,C14
            } //#C11,C12,C13,C14
            _ => true, //#C25
            _ => true, //#C12,C13,C14
        }),
        // C25
        mode is Write ==> final(context).signals() == old(context).signals(), //#C25
        mode is Write ==> (match opening(filename, true) { //#C25
            Err(e) => r == core::result::Result::<Box<Profile>, Error>::Err(e), //#C25
            Ok(io) => r is Ok && r->Ok_0.for_writing() && r->Ok_0.stream() == Some(io), //#C25
        }), //#C25
@END

// C27: what an open gives is determined by the file alone, whatever the other threads do with the context between the opens
@FN src/types/profile.rs Profile::open_from_file //#C27
    ensures //#C27
        /*NOT-VACUOUS*/ true, //#C27
        mode is Read ==> (match opening(filename, false) { //#C27
            Err(e) => r == core::result::Result::<Box<Profile>, Error>::Err(e), //#C27
            Ok(io) => match r { //#C27
                Ok(p) => p.opened(io), //#C27
                Err(e) => exists|error: Option<Error>, a: Seq<ErrorCode>, b: Seq<ErrorCode>| rejected(io, e, error, a, b), //#C27
            } //#C27
        }), //#C27
        mode is Write ==> (match opening(filename, true) { //#C27
            Err(e) => r == core::result::Result::<Box<Profile>, Error>::Err(e), //#C27
            Ok(io) => r is Ok && r->Ok_0.for_writing() && r->Ok_0.stream() == Some(io), //#C27
        }), //#C27
@START //#C27
    let mut global = Global; //#C27
@END //#C27
}

} // verus!
fn main() {}
