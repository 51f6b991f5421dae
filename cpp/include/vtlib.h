// Declarations (no definitions) of the library entities used by the CPU
// kernels of pytorch3d.  Used only to parse the real sources of
// /repo/pytorch3d/csrc with clang; the meaning of every entity declared here
// is given by its contract in vt/cpp.py.
#pragma once
typedef signed char int8_t;
typedef unsigned char uint8_t;
typedef int int32_t;
typedef unsigned int uint32_t;
typedef long int64_t;
typedef unsigned long uint64_t;
typedef unsigned long size_t;
typedef unsigned int uint;
typedef long ptrdiff_t;
double sqrt(double); double exp(double); double pow(double, double); double fabs(double);
double log(double); double floor(double); double ceil(double); double hypot(double, double);
double cos(double); double sin(double); double acos(double);
float abs(float); double abs(double); int abs(int); long abs(long);
void vt_check(bool);
void vt_error();
namespace std {
typedef ::size_t size_t;
typedef ::int64_t int64_t; typedef ::int32_t int32_t; typedef ::uint8_t uint8_t;
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T&> { typedef T type; };
template <class T> struct remove_reference<T&&> { typedef T type; };
template <class T> using remove_reference_t = typename remove_reference<T>::type;
template <class T> struct remove_const { typedef T type; };
template <class T> struct remove_const<const T> { typedef T type; };
template <class T> struct decay { typedef typename remove_const<typename remove_reference<T>::type>::type type; };
template <class T> using decay_t = typename decay<T>::type;
template <class T> struct remove_pointer { typedef T type; };
template <class T> struct remove_pointer<T*> { typedef T type; };
template <class T> struct remove_pointer<T* const> { typedef T type; };
template <class T> using remove_pointer_t = typename remove_pointer<T>::type;
template <bool B, class T = void> struct enable_if {};
template <class T> struct enable_if<true, T> { typedef T type; };
template <bool B, class T = void> using enable_if_t = typename enable_if<B, T>::type;
template <class A, class B> struct is_same { static constexpr bool value = false; };
template <class A> struct is_same<A, A> { static constexpr bool value = true; };
template <class A, class B> inline constexpr bool is_same_v = is_same<A, B>::value;
template <bool B, class A, class C> struct conditional { typedef A type; };
template <class A, class C> struct conditional<false, A, C> { typedef C type; };
template <bool B, class A, class C> using conditional_t = typename conditional<B, A, C>::type;
template <class T> remove_reference_t<T>&& move(T&&);
template <class T> T&& forward(remove_reference_t<T>&);
template <class T> struct reference_wrapper { operator T&() const; T& get() const; };
template <class T> reference_wrapper<T> ref(T&);
template <class T> void swap(T&, T&);

template <class E> class initializer_list {
  const E* _b; size_t _n;
 public:
  constexpr initializer_list() : _b(nullptr), _n(0) {}
  size_t size() const; const E* begin() const; const E* end() const;
};
template <class... T> struct tuple {
  tuple(); tuple(const T&...);
  template <class... U> tuple(U&&...);
  template <class... U> tuple& operator=(const tuple<U...>&);
};
template <int I, class... T> struct vt_el;
template <class H, class... T> struct vt_el<0, H, T...> { typedef H type; };
template <int I, class H, class... T> struct vt_el<I, H, T...> { typedef typename vt_el<I - 1, T...>::type type; };
template <int I, class... T> typename vt_el<I, T...>::type& get(tuple<T...>&);
template <int I, class... T> const typename vt_el<I, T...>::type& get(const tuple<T...>&);
template <int I, class... T> typename vt_el<I, T...>::type&& get(tuple<T...>&&);
template <class... T> bool operator<(const tuple<T...>&, const tuple<T...>&);
template <class... T> bool operator>(const tuple<T...>&, const tuple<T...>&);
template <class... T> bool operator<=(const tuple<T...>&, const tuple<T...>&);
template <class... T> tuple<decay_t<T>...> make_tuple(T&&...);
template <class... T> tuple<T&...> tie(T&...);
template <class A, class B> struct pair { A first; B second; pair(); pair(const A&, const B&); };
template <class A, class B> pair<decay_t<A>, decay_t<B>> make_pair(A&&, B&&);

template <class T, size_t N> struct array {
  T _d[N];
  T& operator[](size_t); const T& operator[](size_t) const;
  size_t size() const; T* begin(); T* end();
};
template <int I, class T, size_t N> T& get(array<T, N>&);
template <int I, class T, size_t N> const T& get(const array<T, N>&);

template <class T> struct vt_it {
  vt_it& operator++(); vt_it operator++(int); vt_it& operator--(); vt_it operator--(int);
  vt_it operator+(ptrdiff_t) const; vt_it operator-(ptrdiff_t) const; ptrdiff_t operator-(const vt_it&) const;
  vt_it& operator+=(ptrdiff_t); vt_it& operator-=(ptrdiff_t);
  T& operator*() const; T* operator->() const; T& operator[](ptrdiff_t) const;
  bool operator==(const vt_it&) const; bool operator!=(const vt_it&) const; bool operator<(const vt_it&) const;
};
template <class T> struct vector {
  typedef vt_it<T> iterator; typedef T value_type;
  vector(); vector(size_t); vector(size_t, const T&); vector(initializer_list<T>);
  template <class It> vector(It, It);
  T& operator[](size_t); const T& operator[](size_t) const;
  T& at(size_t);
  size_t size() const; bool empty() const; void resize(size_t); void resize(size_t, const T&);
  void reserve(size_t); void clear(); T& back(); T& front(); void pop_back();
  void push_back(const T&); template <class... A> T& emplace_back(A&&...);
  vt_it<T> begin(); vt_it<T> end(); vt_it<const T> begin() const; vt_it<const T> end() const; T* data();
  template <class It> void insert(vt_it<T>, It, It);
};
template <class T> struct deque : vector<T> { void pop_front(); void push_front(const T&); };
template <class T> struct less {};
template <class T> struct greater {};
template <class T, class C = vector<T>, class L = less<T>> struct priority_queue {
  priority_queue(); template <class X> explicit priority_queue(X);
  bool empty() const; size_t size() const; const T& top() const; void pop(); void push(const T&);
  template <class... A> void emplace(A&&...);
};
template <class K, class V> struct unordered_map {
  struct iterator { pair<const K, V>* operator->() const; pair<const K, V>& operator*() const;
    bool operator==(const iterator&) const; bool operator!=(const iterator&) const; };
  unordered_map(); V& operator[](const K&); size_t count(const K&) const; size_t size() const;
  iterator find(const K&); iterator begin(); iterator end();
  template <class... A> pair<iterator, bool> emplace(A&&...);
  pair<iterator, bool> insert(const pair<const K, V>&);
};
template <class T> const T& max(const T&, const T&);
template <class T> const T& min(const T&, const T&);
template <class T> T max(initializer_list<T>);
template <class T> T min(initializer_list<T>);
template <class T> const T& clamp(const T&, const T&, const T&);
using ::abs;
float fabs(float); double fabs(double);
float sqrt(float); double sqrt(double); double sqrt(int);
float exp(float); double exp(double);
float log(float); double log(double);
float pow(float, float); double pow(double, double); double pow(float, double); double pow(double, float); double pow(float, int);
float floor(float); double floor(double); float ceil(float); double ceil(double);
float hypot(float, float); double hypot(double, double); double hypot(float, double); double hypot(double, float);
float fmaxf(float, float); float fminf(float, float); double fmax(double, double); double fmin(double, double);
float modf(float, float*); double modf(double, double*);
long lround(float); long lround(double); long lroundf(float);
float acos(float); float cos(float); float sin(float);
bool isnan(float); bool isfinite(float); bool isinf(float);
template <class T> struct numeric_limits { static T max(); static T min(); static T lowest(); static T infinity(); static T epsilon(); };
template <class It, class T> It lower_bound(It, It, const T&);
template <class It, class T> It upper_bound(It, It, const T&);
template <class It> void sort(It, It);
template <class It, class C> void sort(It, It, C) {}
template <class It, class T> void fill(It, It, const T&);
template <class It> It max_element(It, It);
template <class It> It min_element(It, It);
template <class It, class P> It find_if(It a, It b, P p) { return a; }
template <class It> ptrdiff_t distance(It, It);
template <class It, class T> T accumulate(It, It, T);
struct thread { thread(); template <class F, class... A> explicit thread(F&&, A&&...); void join(); };
template <class S> struct vt_dummy {};
struct ostream { ostream& operator<<(const char*); ostream& operator<<(float); ostream& operator<<(double); ostream& operator<<(int); };
struct string { string(); string(const char*); };
template <class T> struct hash { size_t operator()(const T&) const; };
template <class T> struct shared_ptr {};
template <class T> T* begin(vector<T>&);
template <class T> T* end(vector<T>&);
} // namespace std
namespace at {
enum DeviceType { kCPU, kCUDA };
struct Device { DeviceType type() const; };
enum ScalarType { kFloat, kFloat32, kFloat64, kDouble, kInt, kInt32, kInt64, kLong, kBool, kUInt8, kByte, kHalf };
struct TensorOptions {
  TensorOptions dtype(ScalarType) const; TensorOptions device(Device) const;
  TensorOptions device(DeviceType) const; TensorOptions requires_grad(bool) const;
  TensorOptions();
  TensorOptions(ScalarType);
};
struct Scalar {
  Scalar(double); Scalar(float); Scalar(int); Scalar(long); Scalar(bool);
  template <class T> T to() const; float toFloat() const; int toInt() const; long toLong() const;
};
struct IntArrayRef { IntArrayRef(std::initializer_list<int64_t>); int64_t operator[](size_t) const; size_t size() const; };
template <class T, int N> struct TensorAccessor {
  typedef T* PtrType;
  TensorAccessor<T, N - 1> operator[](int64_t); const TensorAccessor<T, N - 1> operator[](int64_t) const;
  int64_t size(int) const; T* data();
};
template <class T> struct TensorAccessor<T, 1> {
  typedef T* PtrType;
  T& operator[](int64_t); const T& operator[](int64_t) const;
  int64_t size(int) const; T* data();
};
struct Tensor {
  Tensor(); Tensor(const Tensor&); Tensor& operator=(const Tensor&); Tensor& operator=(const Scalar&); int64_t size(int64_t) const; IntArrayRef sizes() const; int64_t dim() const; int64_t ndimension() const; int64_t numel() const;
  TensorOptions options() const; ScalarType dtype() const; ScalarType scalar_type() const; Device device() const;
  bool is_cuda() const; bool is_contiguous() const; Tensor contiguous() const; Tensor clone() const;
  template <class T, int N> TensorAccessor<T, N> accessor() const;
  template <class T> T* data_ptr() const;
  Scalar item() const; template <class T> T item() const;
  Tensor operator[](int64_t) const; Tensor operator[](const Tensor&) const;
  Tensor& operator+=(const Tensor&); Tensor& operator-=(const Tensor&); Tensor& operator*=(const Tensor&);
  Tensor& operator+=(const Scalar&); Tensor& operator-=(const Scalar&); Tensor& operator*=(const Scalar&);
  Tensor sum() const; Tensor max() const; Tensor to(ScalarType) const; Tensor view(IntArrayRef) const;
  Tensor unsqueeze(int64_t) const; Tensor squeeze(int64_t) const; Tensor mean() const;
  Tensor slice(int64_t, int64_t, int64_t) const;
};
Tensor zeros(IntArrayRef, TensorOptions); Tensor zeros(IntArrayRef); Tensor ones(IntArrayRef, TensorOptions);
Tensor empty(IntArrayRef, TensorOptions); Tensor empty(IntArrayRef);
Tensor full(IntArrayRef, Scalar, TensorOptions); Tensor full(IntArrayRef, Scalar);
Tensor zeros_like(const Tensor&); Tensor ones_like(const Tensor&); Tensor empty_like(const Tensor&); Tensor full_like(const Tensor&, Scalar);
Tensor max(const Tensor&); Tensor mean(const Tensor&); Tensor mean(const Tensor&, IntArrayRef);
Tensor mean(const Tensor&, IntArrayRef, bool);
Tensor mean(const Tensor&, int);
Tensor tensor(IntArrayRef, TensorOptions); Tensor tensor(IntArrayRef);
Tensor from_blob(void*, IntArrayRef, TensorOptions);
template <class T> Tensor from_blob(T*, IntArrayRef, TensorOptions);
int get_num_threads();
template <class F> void parallel_for(int64_t, int64_t, int64_t, const F&);
} // namespace at
namespace torch { using namespace at; namespace autograd { void increment_version(const at::Tensor&); } }
namespace c10 { using at::Scalar; using at::ScalarType; template <class T> struct optional { optional(); optional(T); bool has_value() const; T value() const; }; }
#define TORCH_CHECK(c, ...) vt_check(c)
#define TORCH_INTERNAL_ASSERT(c, ...) vt_check(c)
#define AT_ASSERTM(c, ...) vt_check(c)
#define AT_ASSERT(c, ...) vt_check(c)
#define AT_ERROR(...) vt_error()
#define TORCH_CHECK_ARG(c, ...) vt_check(c)
#define INT_MAX 2147483647
#define FLT_MAX std::numeric_limits<float>::max()
