// Looking up tags, for any directory.
@INCLUDE profile.inc

/// The first tag of a name.
pub open spec fn first(names: Seq<Signature>, n: nat, sig: Signature) -> Option<int> decreases n {
    if n == 0 { None } else {
        match first(names, (n - 1) as nat, sig) {
            Some(i) => Some(i),
            None => if names[n - 1] == sig { Some(n - 1) } else { None },
        }
    }
}
proof fn first_is_first(names: Seq<Signature>, n: nat, sig: Signature)
    ensures match first(names, n, sig) {
        Some(i) => 0 <= i < n && names[i] == sig && forall|j: int| 0 <= j < i ==> names[j] != sig,
        None => forall|j: int| 0 <= j < n ==> names[j] != sig,
    },
    decreases n,
{
    if n > 0 { first_is_first(names, (n - 1) as nat, sig); }
}
/// A link leads to an earlier tag.
proof fn link_is_earlier(names: Seq<Signature>, offsets: Seq<usize>, sizes: Seq<usize>, o: usize, s: usize, n: nat, j: nat)
    requires j <= n,
    ensures match link(names, offsets, sizes, o, s, j) {
        Some(sig) => first(names, n, sig) is Some && first(names, n, sig)->0 < j,
        None => true,
    },
    decreases j,
{
    if j > 0 {
        link_is_earlier(names, offsets, sizes, o, s, n, (j - 1) as nat);
        first_is_first(names, n, names[j - 1]);
    }
}
/// Where following links from a name ends, in at most `fuel` steps.
pub open spec fn end_of(names: Seq<Signature>, linked: Seq<Option<Signature>>, n: nat, sig: Signature, fuel: nat) -> Option<int> decreases fuel {
    if fuel == 0 { None } else {
        match first(names, n, sig) {
            None => None,
            Some(i) => match linked[i] { None => Some(i), Some(next) => end_of(names, linked, n, next, (fuel - 1) as nat) },
        }
    }
}
impl Profile {
    /// What opening a profile establishes (unit opening, C14), and what its callers rely on.
    pub closed spec fn sound(&self) -> bool {
        self.tag_count <= 100 && links(self.tag_names@, self.tag_offsets@, self.tag_sizes@, self.tag_linked@, self.tag_count as nat)
    }
    pub closed spec fn find(&self, sig: Signature) -> Option<int> { first(self.tag_names@, self.tag_count as nat, sig) }
    pub closed spec fn end(&self, sig: Signature) -> Option<int> {
        end_of(self.tag_names@, self.tag_linked@, self.tag_count as nat, sig, self.tag_count as nat + 1)
    }

    #[verifier::loop_isolation(false)]
@FN src/types/profile.rs Profile::search_one_tag
    requires self.sound(),
    ensures
        /*NOT-VACUOUS*/ true,
        match r { Some(i) => self.find(sig) == Some(i as int), None => self.find(sig) is None },
@RANGE it for (\w+) in (0)\s*\.\.\s*(self\.tag_count)\b
    invariant
        it <= it_end, it_end == self.tag_count, self.sound(),
        first(self.tag_names@, it as nat, sig) is None,
    decreases it_end - it,
@BEFORE return Some\(\w+\);
    proof { first_mono(self.tag_names@, it as nat, self.tag_count as nat, sig); }
@END

@FN src/types/profile.rs Profile::search_tag
    requires self.sound(),
    ensures
        /*NOT-VACUOUS*/ true,
        !follow_links ==> (match r { Some(i) => self.find(sig_0) == Some(i as int), None => self.find(sig_0) is None }),
        follow_links ==> (match r {
            Some(i) => self.end(sig_0) == Some(i as int) && i < self.tag_count && self.tag_linked@[i as int] is None,
            None => self.find(sig_0) is None,
        }),
@START
    let ghost mut fuel = self.tag_count as nat + 1;
    let ghost mut found = false;
    proof { first_is_first(self.tag_names@, self.tag_count as nat, sig); }
@LOOP loop\b
    invariant
        self.sound(),
        self.end(sig_0) == end_of(self.tag_names@, self.tag_linked@, self.tag_count as nat, sig, fuel),
        !follow_links ==> sig == sig_0,
        match self.find(sig) { Some(i) => i < fuel, None => !found && sig == sig_0 },
    decreases fuel,
    @BODY
    proof {
        first_is_first(self.tag_names@, self.tag_count as nat, sig);
        match self.find(sig) {
            Some(i) => {
                link_is_earlier(self.tag_names@, self.tag_offsets@, self.tag_sizes@, self.tag_offsets@[i], self.tag_sizes@[i], self.tag_count as nat, i as nat);
                found = true;
                fuel = (fuel - 1) as nat;
            }
            None => {}
        }
    }
@END

@FN src/types/profile.rs Profile::get_tag_signature
    requires self.sound(),
    ensures
        /*NOT-VACUOUS*/ true,
        r == (if n < self.tag_count { self.tag_names@[n as int] } else { Signature(0x20202020) }),
@END
@FN src/types/profile.rs Profile::get_tag_count
    ensures r == self.tag_count, /*NOT-VACUOUS*/ true
@END
}
proof fn first_mono(names: Seq<Signature>, m: nat, n: nat, sig: Signature)
    requires m <= n, first(names, m, sig) is Some,
    ensures first(names, n, sig) == first(names, m, sig),
    decreases n,
{
    if m < n { first_mono(names, m, (n - 1) as nat, sig); }
}

} // verus!
fn main() {}
