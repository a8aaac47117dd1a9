// Instantiations of /repo's templates that are put under contract, and field
// offsets of the structures the contracts speak about.  Compiled to LLVM IR only.
#include <cerrno>
#include <cstddef>
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
using namespace floaxie;

template class floaxie::diy_fp<double>;
template class floaxie::diy_fp<float>;

#define OFF(name, ...) extern "C" { extern const unsigned long name; const unsigned long name = (__VA_ARGS__); }

OFF(off_fp_d_f, offsetof(diy_fp<double>, m_f)) OFF(off_fp_d_e, offsetof(diy_fp<double>, m_e)) OFF(size_fp_d, sizeof(diy_fp<double>))
OFF(off_fp_f_f, offsetof(diy_fp<float>, m_f)) OFF(off_fp_f_e, offsetof(diy_fp<float>, m_e)) OFF(size_fp_f, sizeof(diy_fp<float>))
#define DS(s, F) typedef diy_fp<F>::downsample_result ds_##s; \
 OFF(off_ds_##s##_value, offsetof(ds_##s, value)) OFF(off_ds_##s##_status, offsetof(ds_##s, status)) OFF(off_ds_##s##_acc, offsetof(ds_##s, is_accurate)) OFF(size_ds_##s, sizeof(ds_##s)) \
 OFF(size_dss_##s, sizeof(ds_##s().status)) \
 typedef std::pair<diy_fp<F>, diy_fp<F>> bp_##s; OFF(off_bp_##s##_a, offsetof(bp_##s, first)) OFF(off_bp_##s##_b, offsetof(bp_##s, second)) OFF(size_bp_##s, sizeof(bp_##s)) \
 OFF(maxbuf_##s, max_buffer_size<F>()) \
 typedef value_and_status<F> vs_##s; OFF(off_vs_##s##_value, offsetof(vs_##s, value)) OFF(off_vs_##s##_status, offsetof(vs_##s, status)) OFF(size_vs_##s, sizeof(vs_##s))
DS(d, double) DS(f, float)
#define CH(s, F, c, C) \
 typedef digit_parse_result<F, C> dp_##s##c; \
 OFF(off_dp_##s##c##_value, offsetof(dp_##s##c, value)) OFF(off_dp_##s##c##_K, offsetof(dp_##s##c, K)) OFF(off_dp_##s##c##_end, offsetof(dp_##s##c, str_end)) \
 OFF(off_dp_##s##c##_frac, offsetof(dp_##s##c, frac)) OFF(off_dp_##s##c##_trunc, offsetof(dp_##s##c, truncated)) OFF(off_dp_##s##c##_special, offsetof(dp_##s##c, special)) \
 OFF(off_dp_##s##c##_sign, offsetof(dp_##s##c, sign)) OFF(size_dp_##s##c, sizeof(dp_##s##c)) OFF(size_frac_##s##c, sizeof(dp_##s##c().frac)) \
 typedef mantissa_parse_result<F, C> mp_##s##c; \
 OFF(off_mp_##s##c##_value, offsetof(mp_##s##c, value)) OFF(off_mp_##s##c##_error, offsetof(mp_##s##c, error)) OFF(off_mp_##s##c##_K, offsetof(mp_##s##c, K)) \
 OFF(off_mp_##s##c##_end, offsetof(mp_##s##c, str_end)) OFF(off_mp_##s##c##_special, offsetof(mp_##s##c, special)) OFF(off_mp_##s##c##_sign, offsetof(mp_##s##c, sign)) \
 OFF(size_mp_##s##c, sizeof(mp_##s##c)) OFF(size_err_##s##c, sizeof(mp_##s##c().error)) \
 typedef krosh_result<F, C> kr_##s##c; \
 OFF(off_kr_##s##c##_value, offsetof(kr_##s##c, value)) OFF(off_kr_##s##c##_end, offsetof(kr_##s##c, str_end)) OFF(off_kr_##s##c##_status, offsetof(kr_##s##c, status)) \
 OFF(off_kr_##s##c##_acc, offsetof(kr_##s##c, is_accurate)) OFF(size_kr_##s##c, sizeof(kr_##s##c)) \
 OFF(off_ep_##s##c##_value, offsetof(exponent_parse_result<C>, value)) OFF(off_ep_##s##c##_end, offsetof(exponent_parse_result<C>, str_end)) OFF(size_ep_##s##c, sizeof(exponent_parse_result<C>)) \
 template digit_parse_result<F, C> floaxie::parse_digits<F, C>(const C*); \
 template mantissa_parse_result<F, C> floaxie::parse_mantissa<F, C>(const C*); \
 template krosh_result<F, C> floaxie::krosh<F, C>(const C*); \
 template value_and_status<F> floaxie::atof<F, C>(const C*, C**, F (*)(const C*, C**)); \
 template value_and_status<F> floaxie::atof<F, C>(const C*, std::nullptr_t, F (*)(const C*, C**)); \
 template value_and_status<F> floaxie::from_string<F, C>(const std::basic_string<C>&, F (*)(const C*, C**)); \
 extern "C" void e_atof_##s##c(const C* str, C** end, value_and_status<F>* out) { *out = atof<F>(str, end); } \
 extern "C" void e_atofn_##s##c(const C* str, value_and_status<F>* out) { *out = atof<F, C>(str, nullptr); } \
 extern "C" void e_atofc_##s##c(const C* str, C** end, value_and_status<F>* out, F (*fb)(const C*, C**)) { *out = atof<F>(str, end, fb); } \
 extern "C" void e_fromstr_##s##c(const std::basic_string<C>* str, value_and_status<F>* out) { *out = from_string<F>(*str); } \
 extern "C" void e_fromstrc_##s##c(const std::basic_string<C>* str, value_and_status<F>* out, F (*fb)(const C*, C**)) { *out = from_string<F>(*str, fb); }
CH(d, double, c, char) CH(d, double, w, wchar_t) CH(f, float, c, char) CH(f, float, w, wchar_t)

#define CT(c, C) \
 template std::size_t floaxie::eat_nan<C>(const C*); template std::size_t floaxie::eat_inf<C>(const C*); \
 template unsigned int floaxie::extract_fraction_digits<fraction_decimal_digits, C>(const C*); \
 template exponent_parse_result<C> floaxie::parse_exponent<C>(const C*);
CT(c, char) CT(w, wchar_t)
template unsigned int floaxie::convert_numerator<fraction_decimal_digits, fraction_binary_digits, unsigned int>(unsigned int);
template conversion_status floaxie::check_errno<double>(double); template conversion_status floaxie::check_errno<float>(float);

#define PR(s, F, c, C) \
 template std::size_t floaxie::ftoa<F, C>(F, C*); \
 template void floaxie::grisu2<grisu_parameters<F>.alpha, grisu_parameters<F>.gamma, F, C>(F, C*, int*, int*); \
 template void floaxie::digit_gen_select<false>::gen<F, C>(const diy_fp<F>&, const diy_fp<F>&, C*, int*, int*); \
 template std::basic_string<C> floaxie::to_basic_string<F, C>(F); \
 extern "C" std::size_t e_ftoa_##s##c(F v, C* b) { return ftoa(v, b); } \
 extern "C" void e_gen_##s##c(diy_fp<F>* p, diy_fp<F>* m, C* b, int* len, int* K) { digit_gen<grisu_parameters<F>.alpha, grisu_parameters<F>.gamma>(*p, *m, b, len, K); } \
 extern "C" void e_grisu_##s##c(F v, C* b, int* len, int* K) { grisu2<grisu_parameters<F>.alpha, grisu_parameters<F>.gamma>(v, b, len, K); } \
 extern "C" void e_round_##s##c(F v, value_and_status<F>* out, C* b, C** end) { ftoa(v, b); *out = atof<F>(b, end); }
#define PRC(c, C) \
 template std::size_t floaxie::prettify<16, C>(C*, const unsigned int, const int); \
 template std::size_t floaxie::fill_exponent<C>(unsigned int, C*); \
 template std::size_t floaxie::print_scientific<C>(C*, const unsigned int, const int); \
 template std::size_t floaxie::print_decimal<C>(C*, const unsigned int, const int);
PR(d, double, c, char) PR(d, double, w, wchar_t) PR(f, float, c, char) PR(f, float, w, wchar_t)
PRC(c, char) PRC(w, wchar_t)
// the narrow and a wide variant one after the other
#define SAME(s, F, c, C) \
 extern "C" void e_sgen_##s##c(diy_fp<F>* p, diy_fp<F>* m, char* b, int* len, int* K, C* b2, int* len2, int* K2) { e_gen_##s##c(p, m, b2, len2, K2); digit_gen<grisu_parameters<F>.alpha, grisu_parameters<F>.gamma>(*p, *m, b, len, K); } \
 extern "C" void e_sgrisu_##s##c(F v, char* b, int* len, int* K, C* b2, int* len2, int* K2) { e_grisu_##s##c(v, b2, len2, K2); grisu2<grisu_parameters<F>.alpha, grisu_parameters<F>.gamma>(v, b, len, K); }
#ifdef WIDE_TYPES
PR(d, double, x, char16_t) PR(d, double, y, char32_t) PR(f, float, x, char16_t) PR(f, float, y, char32_t)
PRC(x, char16_t) PRC(y, char32_t)
SAME(d, double, x, char16_t) SAME(d, double, y, char32_t) SAME(f, float, x, char16_t) SAME(f, float, y, char32_t)
#endif
SAME(d, double, w, wchar_t) SAME(f, float, w, wchar_t)
extern "C" std::string e_tostr_dc(double v) { return to_string(v); }
extern "C" std::string e_tostr_fc(float v) { return to_string(v); }
extern "C" std::wstring e_tostr_dw(double v) { return to_wstring(v); }
extern "C" std::wstring e_tostr_fw(float v) { return to_wstring(v); }
extern "C" std::u16string e_tostr_dx(double v) { return to_u16string(v); }
extern "C" std::u16string e_tostr_fx(float v) { return to_u16string(v); }
extern "C" std::u32string e_tostr_dy(double v) { return to_u32string(v); }
extern "C" std::u32string e_tostr_fy(float v) { return to_u32string(v); }

extern "C" int e_kcomp_d(int e) { return k_comp_exp<grisu_parameters<double>.alpha, grisu_parameters<double>.gamma>(e); }
extern "C" int e_kcomp_f(int e) { return k_comp_exp<grisu_parameters<float>.alpha, grisu_parameters<float>.gamma>(e); }
#define FP(s, F) \
 extern "C" void e_cached_##s(int k, diy_fp<F>* out) { *out = cached_power<F>(k); } \
 extern "C" void e_ctor_##s(F v, diy_fp<F>* out) { *out = diy_fp<F>(v); } \
 extern "C" void e_bound_##s(F v, std::pair<diy_fp<F>, diy_fp<F>>* out) { *out = diy_fp<F>::boundaries(v); } \
 extern "C" void e_round_trip_##s(F v, diy_fp<F>::downsample_result* out) { diy_fp<F> x(v); x.normalize(); *out = x.downsample(); } \
 extern "C" void e_down_##s(diy_fp<F>* x, diy_fp<F>::mantissa_storage_type err, diy_fp<F>::downsample_result* out) { *out = x->downsample(err); } \
 extern "C" void e_mul_##s(diy_fp<F>* a, diy_fp<F>* b) { *a *= *b; } \
 extern "C" void e_mul2_##s(diy_fp<F>* a, diy_fp<F>* b, diy_fp<F>* o) { *o = *a * *b; } \
 extern "C" void e_sub_##s(diy_fp<F>* a, diy_fp<F>* b) { *a -= *b; } \
 extern "C" void e_sub2_##s(diy_fp<F>* a, diy_fp<F>* b, diy_fp<F>* o) { *o = *a - *b; } \
 extern "C" void e_inc_##s(diy_fp<F>* a) { ++*a; } \
 extern "C" void e_dec_##s(diy_fp<F>* a) { --*a; } \
 extern "C" void e_pinc_##s(diy_fp<F>* a, diy_fp<F>* o) { *o = (*a)++; } \
 extern "C" void e_pdec_##s(diy_fp<F>* a, diy_fp<F>* o) { *o = (*a)--; } \
 extern "C" bool e_eq_##s(diy_fp<F>* a, diy_fp<F>* b) { return *a == *b; } \
 extern "C" bool e_ne_##s(diy_fp<F>* a, diy_fp<F>* b) { return *a != *b; } \
 extern "C" bool e_isnorm_##s(diy_fp<F>* a) { return a->is_normalized(); } \
 extern "C" void e_norm_##s(diy_fp<F>* a) { a->normalize(); } \
 OFF(pow_lo_##s, (unsigned long)(long)powers_ten<F>::boundaries.first) OFF(pow_hi_##s, (unsigned long)(long)powers_ten<F>::boundaries.second)
FP(d, double) FP(f, float)
