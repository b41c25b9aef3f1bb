// The part of GLSL used by exported shaders, in double precision.  Shaders are compiled inside this namespace.
#define float double
namespace glsl {
struct vec3 { double x, y, z; vec3() {} explicit vec3(double a) : x(a), y(a), z(a) {} vec3(double a, double b, double c) : x(a), y(b), z(c) {}
    double& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
    vec3& operator+=(const vec3& o) { x += o.x; y += o.y; z += o.z; return *this; } vec3& operator*=(const vec3& o) { x *= o.x; y *= o.y; z *= o.z; return *this; } };
#define OP(o) inline vec3 operator o(const vec3& a, const vec3& b) { return vec3(a.x o b.x, a.y o b.y, a.z o b.z); } inline vec3 operator o(double a, const vec3& b) { return vec3(a) o b; } inline vec3 operator o(const vec3& a, double b) { return a o vec3(b); }
OP(+) OP(-) OP(*) OP(/)
#undef OP
inline vec3 operator-(const vec3& a) { return vec3(-a.x, -a.y, -a.z); }
#define F1(f) inline double f(double a) { return __builtin_##f(a); } inline vec3 f(const vec3& a) { return vec3(__builtin_##f(a.x), __builtin_##f(a.y), __builtin_##f(a.z)); }
F1(exp) F1(sqrt) F1(acos) F1(asin) F1(tan) F1(cos) F1(sin) F1(log) F1(floor)
#undef F1
inline double dot(const vec3& a, const vec3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline double length(const vec3& a) { return sqrt(dot(a, a)); }
inline vec3 normalize(const vec3& a) { return a / length(a); }
inline double abs(double a) { return __builtin_fabs(a); } inline double atan(double y, double x) { return __builtin_atan2(y, x); } inline double atan(double y) { return __builtin_atan(y); }
inline double pow(double a, double b) { return __builtin_pow(a, b); } inline vec3 pow(const vec3& a, const vec3& b) { return vec3(pow(a.x, b.x), pow(a.y, b.y), pow(a.z, b.z)); }
inline double max(double a, double b) { return a > b ? a : b; } inline double min(double a, double b) { return a < b ? a : b; } inline vec3 max(const vec3& a, const vec3& b) { return vec3(max(a.x, b.x), max(a.y, b.y), max(a.z, b.z)); } inline vec3 max(const vec3& a, double b) { return max(a, vec3(b)); }
inline double clamp(double v, double a, double b) { return min(max(v, a), b); } inline double step(double e, double v) { return v < e ? 0.0 : 1.0; }
inline double mix(double a, double b, double t) { return a * (1 - t) + b * t; } inline vec3 mix(const vec3& a, const vec3& b, double t) { return a * (1 - t) + b * t; }
}
