"""The format FromStr uses where none is given."""
from vx import *
from vu import display

PRE = display.PRE + '''
pub trait VxExpect<T> { spec fn o(&self) -> Option<T>; fn vx_expect(self) -> (r: T) ensures self.o() == Some(r); }
impl<T> VxExpect<T> for Option<T> { open spec fn o(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_expect(self) -> (r: T) { self.unwrap() } }
'''
UNIT = Unit('defaults', PRE, [i if not isinstance(i, Fn) else Stub(i) for i in display.ITEMS if not isinstance(i, Fn) or i.name in ('from_newtype_struct', 'from_unit_variant')] + [
    # the format FromStr uses where none is given (a panic of `expect` does not return)
    Fn('VarBase', 'default_from_str_format', emit_owner=display.VB, start='    proof { lemma_empty_var(); }\n', subs=[(r'const \w+: &str = "(?:\\.|[^"\\])*";', ''), (r'\.expect\(\s*\w+\s*\)', '.vx_expect()')],
       spec="""    ensures r is Ok, parts_of(r->Ok_0.parts@) == (match bv(*self) { B::Struct(f) => seq![Part::Var(newtype(f)->0, Seq::empty())], _ => seq![Part::Var(Seq::empty(), Seq::empty())] }),
        bv(*self) is Struct ==> newtype(bv(*self)->Struct_0) is Some, bv(*self) is Variant ==> bv(*self)->Variant_0 is Unit,"""),
], rename=display.RENAME, assumed=['the contracts of unit display on the functions called, and what it assumes'])
