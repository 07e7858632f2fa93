// ---- permissions.rs ----
//@item mutagenyx_lib/src/permissions.rs PermissionAction
//@item mutagenyx_lib/src/permissions.rs PermissionScope
//@item mutagenyx_lib/src/permissions.rs PermissionObject
//@item mutagenyx_lib/src/permissions.rs Permission |#[derive(PartialEq, Eq, Structural)]
//@item mutagenyx_lib/src/permissions.rs Permissions %% permissions: Vec ==> pub permissions: Vec
// what a permission says, with texts as sequences of characters
pub enum OV { Value(Seq<char>, bool), Any(bool) }
pub enum SV { Type(OV), Name(OV), Children(OV), Any(bool) }
pub struct PV { pub mutate: bool, pub scope: SV }
pub open spec fn pv(p: Permission) -> bool { p is Allow }
pub open spec fn ov(o: PermissionObject) -> OV { match o { PermissionObject::Value(s, p) => OV::Value(s@, pv(p)), PermissionObject::Any(p) => OV::Any(pv(p)) } }
pub open spec fn sv_(s: PermissionScope) -> SV {
    match s { PermissionScope::Type(o) => SV::Type(ov(o)), PermissionScope::Name(o) => SV::Name(ov(o)), PermissionScope::Children(o) => SV::Children(ov(o)), PermissionScope::Any(p) => SV::Any(pv(p)) }
}
pub open spec fn av(a: PermissionAction) -> PV {
    match a { PermissionAction::Mutate(s) => PV { mutate: true, scope: sv_(s) }, PermissionAction::Visit(s) => PV { mutate: false, scope: sv_(s) } }
}
// the value (allow or deny) of an object, of a scope
pub open spec fn oval(o: OV) -> bool { match o { OV::Value(_, p) => p, OV::Any(p) => p } }
pub open spec fn sval(s: SV) -> bool { match s { SV::Type(o) => oval(o), SV::Name(o) => oval(o), SV::Children(o) => oval(o), SV::Any(p) => p } }
// a stored permission covers a request: same kind, the same value, and the same scope and name where it names one
pub open spec fn ocovers(a: OV, b: OV) -> bool { match a { OV::Any(p) => p == oval(b), OV::Value(_, _) => a == b } }
pub open spec fn scovers(a: SV, b: SV) -> bool {
    match a {
        SV::Any(p) => p == sval(b),
        SV::Type(o) => b is Type && ocovers(o, b->Type_0),
        SV::Name(o) => b is Name && ocovers(o, b->Name_0),
        SV::Children(o) => b is Children && ocovers(o, b->Children_0),
    }
}
pub open spec fn covers(a: PV, b: PV) -> bool { a.mutate == b.mutate && scovers(a.scope, b.scope) }
pub open spec fn pvs(l: Seq<PermissionAction>) -> Seq<PV> { l.map_values(|a: PermissionAction| av(a)) }
pub open spec fn granted(l: Seq<PV>, b: PV) -> bool { exists|i: int| 0 <= i < l.len() && covers(#[trigger] l[i], b) }
// derived equality
#[verifier::external_body]
pub fn vx_action_eq(a: &PermissionAction, b: &PermissionAction) -> (r: bool) ensures r == (av(*a) == av(*b)) { unimplemented!() }
impl Permission {
//@fn mutagenyx_lib/src/permissions.rs Permission::matches props=C01
//@ret r
//@spec
    ensures r == (pv(*self) == pv(*other)),
//@end
}
impl PermissionObject {
//@fn mutagenyx_lib/src/permissions.rs PermissionObject::matches props=C01
//@ret r
//@spec
    ensures r == ocovers(ov(*self), ov(*other)),
//@subst s == other_s ==> vx_streq(s.as_str(), other_s.as_str())
//@end
}
impl PermissionScope {
//@fn mutagenyx_lib/src/permissions.rs PermissionScope::matches props=C01
//@ret r
//@spec
    ensures r == scovers(sv_(*self), sv_(*other)),
//@end
}
impl PermissionAction {
//@fn mutagenyx_lib/src/permissions.rs PermissionAction::matches props=C01
//@ret r
//@spec
    ensures r == covers(av(*self), av(*action)),
//@end
}
impl Permissions {
    pub closed spec fn allows(self, a: PV) -> bool { granted(pvs(self.permissions@), a) }
//@fn mutagenyx_lib/src/permissions.rs Permissions::new props=C01
//@ret r
//@spec
    ensures pvs(r.permissions@) == Seq::<PV>::empty(),
//@exit
    
//@end
//@fn mutagenyx_lib/src/permissions.rs Permissions::add_permission props=C01
//@spec
    ensures pvs(final(self).permissions@) == pvs(old(self).permissions@).push(av(action)),
//@entry
    proof { assert(pvs(self.permissions@.push(action)) =~= pvs(self.permissions@).push(av(action))); }
//@end
//@fn mutagenyx_lib/src/permissions.rs Permissions::remove_permission props=C01 attr=loop_isolation(false) loops=1
//@spec
    ensures
        !pvs(old(self).permissions@).contains(av(action)) ==> pvs(final(self).permissions@) == pvs(old(self).permissions@),
        pvs(old(self).permissions@).contains(av(action)) ==> exists|i: int| 0 <= i < old(self).permissions@.len() && #[trigger] pvs(old(self).permissions@)[i] == av(action)
            && (forall|j: int| 0 <= j < i ==> pvs(old(self).permissions@)[j] != av(action)) && pvs(final(self).permissions@) == pvs(old(self).permissions@).remove(i),
//@subst *value == action ==> vx_action_eq(value, &action)
//@loop 0
        invariant_except_break
            self.permissions@ == old(self).permissions@,
            forall|j: int| 0 <= j < vx_i0 ==> #[trigger] pvs(old(self).permissions@)[j] != av(action),
        ensures
            (self.permissions@ == old(self).permissions@ && !pvs(old(self).permissions@).contains(av(action)))
            || (exists|i: int| 0 <= i < old(self).permissions@.len() && #[trigger] pvs(old(self).permissions@)[i] == av(action)
               && (forall|j: int| 0 <= j < i ==> pvs(old(self).permissions@)[j] != av(action)) && pvs(self.permissions@) == pvs(old(self).permissions@).remove(i)),
//@after remove 0
                proof { assert(pvs(self.permissions@) =~= pvs(old(self).permissions@).remove(index as int)); assert(pvs(old(self).permissions@)[index as int] == av(action)); }
//@end
//@fn mutagenyx_lib/src/permissions.rs Permissions::have_permission props=C01 loops=1
//@ret r
//@spec
    ensures r == self.allows(av(action)), // [C01]
//@loop 0
        invariant vx_it0.seq().len() == self.permissions@.len(),
            forall|j: int| 0 <= j < vx_it0.seq().len() ==> *(#[trigger] vx_it0.seq()[j]) == self.permissions@[j],
            forall|j: int| 0 <= j < vx_it0.index() ==> !covers(#[trigger] pvs(self.permissions@)[j], av(action)),
//@loopstart 0
            proof { assert(av(*stored_action) == pvs(self.permissions@)[vx_it0.index() as int]); }
//@end
//@fn mutagenyx_lib/src/permissions.rs Permissions::len props=C01
//@ret r
//@spec
    ensures r == pvs(self.permissions@).len(),
//@end
//@fn mutagenyx_lib/src/permissions.rs Permissions::is_empty props=C01
//@ret r
//@spec
    ensures r == (pvs(self.permissions@).len() == 0),
//@end
//@fn mutagenyx_lib/src/permissions.rs Permissions::clear props=C01
//@spec
    ensures pvs(final(self).permissions@) == Seq::<PV>::empty(),
//@exit
    proof { assert(pvs(self.permissions@) =~= Seq::<PV>::empty()); }
//@end
}
