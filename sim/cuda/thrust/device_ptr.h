#pragma once
#include <cuda_runtime.h>
#include <iterator>
#include <type_traits>
namespace simcuda { void drain(); void read(void* dst, const void* src, size_t n); void fill(const char* name, std::function<void()> f); }
namespace thrust {
template<class A, class B> struct pair { A first; B second; };
template<class T> struct device_ptr
{
	typedef typename std::remove_const<T>::type value_type;
	T* p;
	device_ptr(T* q = nullptr) : p(q) {}
	T* get() const { return p; }
	device_ptr operator+(std::ptrdiff_t n) const { return device_ptr(p + n); }
	device_ptr operator-(std::ptrdiff_t n) const { return device_ptr(p - n); }
	std::ptrdiff_t operator-(device_ptr o) const { return p - o.p; }
	value_type operator[](std::ptrdiff_t n) const { value_type v; simcuda::read(&v, p + n, sizeof(v)); return v; }
	value_type operator*() const { return (*this)[0]; }
};
template<class T> device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template<class T> T* raw_pointer_cast(device_ptr<T> p) { return p.get(); }
template<class T, class V> void fill(device_ptr<T> a, device_ptr<T> b, const V& v) { T x = v; simcuda::fill("thrust::fill", [=] { std::fill(a.p, b.p, x); }); }
template<class T> pair<device_ptr<T>, device_ptr<T>> minmax_element(device_ptr<T> a, device_ptr<T> b)
{
	pair<device_ptr<T>, device_ptr<T>> r;
	simcuda::fill("thrust::minmax_element", [&] { auto m = std::minmax_element(a.p, b.p); r.first = device_ptr<T>(m.first); r.second = device_ptr<T>(m.second); });
	return r;
}
template<class T> device_ptr<T> max_element(device_ptr<T> a, device_ptr<T> b) { device_ptr<T> r; simcuda::fill("thrust::max_element", [&] { r = device_ptr<T>(std::max_element(a.p, b.p)); }); return r; }
template<class T> device_ptr<T> min_element(device_ptr<T> a, device_ptr<T> b) { device_ptr<T> r; simcuda::fill("thrust::min_element", [&] { r = device_ptr<T>(std::min_element(a.p, b.p)); }); return r; }
}
