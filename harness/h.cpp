// Proof harness: builds and inspects Scheme data through the project's own
// constructors and accessors, so that no layout is assumed by the verifier.
#include <meevax/kernel/boot.hpp>
#include <meevax/kernel/box.hpp>
#include <meevax/kernel/character.hpp>
#include <meevax/kernel/closure.hpp>
#include <meevax/kernel/comparator.hpp>
#include <meevax/kernel/complex.hpp>
#include <meevax/kernel/continuation.hpp>
#include <meevax/kernel/eof.hpp>
#include <meevax/kernel/ghost.hpp>
#include <meevax/kernel/list.hpp>
#include <meevax/kernel/number.hpp>
#include <meevax/kernel/procedure.hpp>
#include <meevax/kernel/string.hpp>
#include <meevax/kernel/symbol.hpp>
#include <meevax/kernel/vector.hpp>
#include <meevax/kernel/homogeneous_vector.hpp>
#include <meevax/kernel/input_string_port.hpp>
#include <meevax/kernel/output_string_port.hpp>
#include <meevax/kernel/syntactic_closure.hpp>
#include <meevax/kernel/transformer.hpp>
#include <meevax/kernel/identity.hpp>
#include <meevax/kernel/instruction.hpp>
#include <meevax/kernel/syntactic_environment.hpp>
#include <meevax/kernel/syntax.hpp>
#include <stdexcept>

using namespace meevax;

struct vf_exception : std::exception { char const* what() const noexcept override { return "x"; } };

extern "C"
{
  void vf_large(object * r, mpz_ptr z) { new (r) object(make<large_integer>(z)); }
  void vf_ratio(object * r, mpz_ptr n, mpz_ptr d) { new (r) object(make<ratio>(large_integer(n), large_integer(d))); }
  void vf_complex(object * r, object const& a, object const& b) { new (r) object(make<complex>(a, b)); }
  void vf_cons(object * r, object const& a, object const& b) { new (r) object(cons(a, b)); }
  void vf_char(object * r, int c) { new (r) object(make<character>(c)); }
  int vf_char_code(object const& x) { return x.as<character>().codepoint; }
  void vf_string(object * r) { new (r) object(make<string>()); }
  void vf_vector(object * r) { new (r) object(make<heterogeneous_vector>()); }
  void vf_vector_push(object const& v, object const& x) { v.as_mutable<heterogeneous_vector>().objects.push_back(x); }
  std::size_t vf_vector_size(object const& v) { return v.as<heterogeneous_vector>().objects.size(); }
  object const* vf_vector_data(object const& v) { return v.as<heterogeneous_vector>().objects.data(); }
  void vf_string_push(object const& s, int c) { s.as_mutable<string>().characters.push_back(character(c)); }
  std::size_t vf_string_size(object const& s) { return s.as<string>().characters.size(); }
  character const* vf_string_data(object const& s) { return s.as<string>().characters.data(); }
  void vf_box(object * r, object const& x) { new (r) object(make<box>(x, unit)); }

  void vf_symbol(object * r) { new (r) object(make<symbol>("a")); }
  void vf_closure(object * r, object const& a, object const& b) { new (r) object(make<closure>(a, b)); }
  void vf_continuation(object * r, object const& a, object const& b) { new (r) object(make<continuation>(a, b)); }
  void vf_transformer(object * r, object const& a, object const& b) { new (r) object(make<transformer>(a, b)); }
  void vf_error(object * r, object const& a, object const& b) { new (r) object(make<error>(a, b)); }
  void vf_file_error(object * r, object const& a, object const& b) { new (r) object(make<file_error>(a, b)); }
  void vf_read_error(object * r, object const& a, object const& b) { new (r) object(make<read_error>(a, b)); }
  void vf_procedure(object * r) { new (r) object(make<procedure>("p", static_cast<procedure::signature>(nullptr))); }
  void vf_eof(object * r) { new (r) object(make<eof>()); }
  void vf_unspecified(object * r) { new (r) object(make<ghost>("unspecified")); }
  void vf_syntactic_closure(object * r, object const& a, object const& b, object const& c) { new (r) object(make<syntactic_closure>(a, b, c)); }
  void vf_instring(object * r) { new (r) object(make<input_string_port>()); }
  std::istream * vf_istream(object const& x) { return &static_cast<textual_input_port &>(x.as_mutable<input_string_port>()).istream(); }
  std::ostream * vf_ostream(object const& x) { return &static_cast<std::ostream &>(x.as_mutable<output_string_port>()); }
  string const* vf_string_this(object const& s) { return &s.as<string>(); }
  bool vf_is_eof(object const& x) { return x.is<eof>(); }
  void vf_outstring(object * r) { new (r) object(make<output_string_port>()); }
#define VF_HV(TAG) \
  void vf_##TAG##vector(object * r, std::size_t n) { new (r) object(make<TAG##vector>(n)); } \
  std::size_t vf_##TAG##vector_size(object const& v) { return v.as<TAG##vector>().values.size(); } \
  void const* vf_##TAG##vector_data(object const& v) { return std::begin(v.as_mutable<TAG##vector>().values); }
  VF_HV(s8) VF_HV(s16) VF_HV(s32) VF_HV(s64) VF_HV(u8) VF_HV(u16) VF_HV(u32) VF_HV(u64) VF_HV(f32) VF_HV(f64)

  void vf_relative(object * r, object const& a, object const& b) { new (r) object(make<relative>(a, b)); }
  void vf_variadic(object * r, object const& a, object const& b) { new (r) object(make<variadic>(a, b)); }
  void vf_absolute(object * r, object const& a, object const& b) { new (r) object(make<absolute>(a, b)); }
  void vf_macro(object * r, object const& a, object const& b) { new (r) object(make<macro>(a, b)); }
  void vf_senv(object * r, object const& a, object const& b) { new (r) object(make<syntactic_environment>(a, b)); }
  syntactic_environment * vf_senv_this(object const& x) { return &x.as_mutable<syntactic_environment>(); }
  void vf_callee(object *, object const&);
  object vf_callee_(object const& xs) { object r; vf_callee(&r, xs); return r; }
  object vf_throw_object(object const& xs) { throw car(xs); }
  object vf_throw_error(object const& xs) { throw error(car(xs), cdr(xs)); }
  object vf_throw_std(object const&) { throw vf_exception(); }
  void vf_fprocedure(object * r, int k)
  {
    new (r) object(make<procedure>("p", k == 0 ? static_cast<procedure::signature>(vf_callee_) :
                                        k == 1 ? static_cast<procedure::signature>(vf_throw_object) :
                                        k == 2 ? static_cast<procedure::signature>(vf_throw_error) :
                                                 static_cast<procedure::signature>(vf_throw_std)));
  }
  object vf_sx_expand(syntactic_environment const&, object const&, object const&, syntactic_closure::alpha &);
  object vf_sx_generate(syntactic_environment &, object const&, object const&, object const&, bool);
  void vf_syntax(object * r) { new (r) object(make<syntax>("x", vf_sx_expand, vf_sx_generate)); }
  object const* vf_first(object const& x) { return &x.as<pair>().first; }
  object const* vf_second(object const& x) { return &x.as<pair>().second; }
  void vf_instr(object * r, int k)
  {
    static constexpr instruction table[] = {
      instruction::secd_call, instruction::secd_cons, instruction::secd_current, instruction::secd_drop, instruction::secd_dummy,
      instruction::secd_install, instruction::secd_join, instruction::secd_letrec, instruction::secd_load_absolute,
      instruction::secd_load_closure, instruction::secd_load_constant, instruction::secd_load_continuation,
      instruction::secd_load_relative, instruction::secd_load_variadic, instruction::secd_return, instruction::secd_select,
      instruction::secd_stop, instruction::secd_store_absolute, instruction::secd_store_relative, instruction::secd_store_variadic,
      instruction::secd_tail_call, instruction::secd_tail_letrec, instruction::secd_tail_select };
    new (r) object(make<instruction>(table[k]));
  }
  mpz_srcptr vf_zref(object const& x) { return x.as<large_integer>().value; }
  mpq_srcptr vf_qref(object const& x) { return x.as<ratio>().value; }
  object const* vf_real(object const& x) { return &x.as<complex>().real(); }
  object const* vf_imag(object const& x) { return &x.as<complex>().imag(); }
  object const* vf_car(object const& x) { return &car(x); }
  object const* vf_cdr(object const& x) { return &cdr(x); }

  int vf_kind(object const& x)
  {
    if (x.is<null>())          return 0;
    if (x.is<bool>())          return 1;
    if (x.is<small_integer>()) return 2;
    if (x.is<float>())         return 3;
    if (x.is<double>())        return 4;
    if (x.is<character>())     return 5;
    if (x.is<instruction>())   return 6;
    if (x.is<large_integer>()) return 7;
    if (x.is<ratio>())         return 8;
    if (x.is<complex>())       return 9;
    if (x.is<pair>())          return 10;
    if (x.is<string>())        return 11;
    if (x.is<symbol>())        return 12;
    if (x.is<heterogeneous_vector>()) return 13;
    if (x.is<box>())           return 14;
    if (x.is<s8vector>())      return 20;
    if (x.is<s16vector>())     return 21;
    if (x.is<s32vector>())     return 22;
    if (x.is<s64vector>())     return 23;
    if (x.is<u8vector>())      return 24;
    if (x.is<u16vector>())     return 25;
    if (x.is<u32vector>())     return 26;
    if (x.is<u64vector>())     return 27;
    if (x.is<f32vector>())     return 28;
    if (x.is<f64vector>())     return 29;
    if (x.is<closure>())       return 40;
    if (x.is<continuation>())  return 41;
    if (x.is<relative>())      return 42;
    if (x.is<variadic>())      return 43;
    if (x.is<macro>())         return 46;
    if (x.is<absolute>())      return 44;
    if (x.is<transformer>())   return 45;
    if (x.is<syntactic_environment>()) return 47;
    if (x.is<syntactic_closure>()) return 48;
    if (x.is<syntax>())        return 49;
    if (x.is<error>())         return 50;
    return 99;
  }
}
