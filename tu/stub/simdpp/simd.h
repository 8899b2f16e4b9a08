// Declarations-only stand-in for libsimdpp (not installed here), so that the translation
// units which include it can be *parsed* by the extractor.  Nothing here is ever run.
#pragma once
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <xmmintrin.h>
#include <emmintrin.h>

#define SIMDPP_USE_NULL 1
#define SIMDPP_USE_SSE2 0
#define SIMDPP_USE_SSE3 0
#define SIMDPP_USE_AVX 0
#define SIMDPP_USE_AVX2 0
#define SIMDPP_USE_FMA3 0

namespace simdpp {
#define VSTUB(NAME, ELEM, W)                                          \
    template<unsigned N, class E = void> struct NAME;                 \
    template<unsigned N, class E> struct NAME {                       \
        using element_type = ELEM;                                    \
        using base_vector_type = NAME<W, void>;                       \
        static constexpr unsigned length = N;                         \
        static constexpr unsigned base_length = W;                    \
        static constexpr unsigned vec_length = N / W;                 \
        base_vector_type& vec(unsigned);                              \
        NAME<N, void> eval() const;                                   \
        NAME();                                                       \
        template<class E2> NAME(NAME<N, E2> const&);                  \
        template<class E2> NAME& operator=(NAME<N, E2> const&);       \
    };
VSTUB(float32, float, 4)
VSTUB(float64, double, 2)
VSTUB(uint32, std::uint32_t, 4)
VSTUB(uint64, std::uint64_t, 2)
#undef VSTUB
using float32x4 = float32<4>; using float32x8 = float32<8>;
using float64x2 = float64<2>; using float64x4 = float64<4>;

#define VOP(OP)                                                                              \
    template<template<unsigned, class> class V, unsigned N, class A, class B>                \
    V<N, void> operator OP(V<N, A> const&, V<N, B> const&);
VOP(+) VOP(-) VOP(*)
#undef VOP
template<template<unsigned, class> class V, unsigned N, class A> V<N, void> neg(V<N, A> const&);
template<class V, class T> V load(T const*);
template<class V, class T> V load_u(T const*);
template<class V, class T> V load_splat(T const*);
template<class T, class V> void store(T*, V const&);
template<class T, class V> void store_u(T*, V const&);
template<class V, class... T> V make_float(T...);
template<class V, class... T> V make_uint(T...);
template<template<unsigned, class> class V, unsigned N, class E> typename V<N, E>::element_type reduce_add(V<N, E> const&);
template<class V> void transpose2(V&, V&);
template<unsigned, unsigned, template<unsigned, class> class V, unsigned N, class A> V<N, void> permute2(V<N, A> const&);
template<unsigned, unsigned, unsigned, unsigned, template<unsigned, class> class V, unsigned N, class A> V<N, void> permute4(V<N, A> const&);
template<unsigned, unsigned, unsigned, unsigned, template<unsigned, class> class V, unsigned N, class A, class B>
V<N, void> shuffle4x2(V<N, A> const&, V<N, B> const&);
template<template<unsigned, class> class V, unsigned N, class A, class M> V<N, void> bit_xor(V<N, A> const&, M const&);
template<class V> V fmadd(V const&, V const&, V const&);
} // namespace simdpp
