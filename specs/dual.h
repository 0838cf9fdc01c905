// forward-mode differentiation: the Jacobian of a specification function is computed, not written down
#pragma once
#include <math.h>

template<int N> struct Dual {
	float v;
	float d[N];
	bool nz[N];   // structurally non-zero derivatives (concrete during generation)
	Dual(float x = 0.f) : v(x) { for (int i = 0; i < N; i++) { d[i] = 0.f; nz[i] = false; } }
	static Dual var(float x, int k) { Dual r(x); r.d[k] = 1.f; r.nz[k] = true; return r; }
};
template<int N> static Dual<N> chain(float v, const Dual<N> &a, float da)
{
	Dual<N> r(v);
	for (int i = 0; i < N; i++) { if (a.nz[i]) { r.nz[i] = true; r.d[i] = da * a.d[i]; } }
	return r;
}
template<int N> static Dual<N> chain2(float v, const Dual<N> &a, float da, const Dual<N> &b, float db)
{
	Dual<N> r(v);
	for (int i = 0; i < N; i++) {
		if (a.nz[i] && b.nz[i]) { r.nz[i] = true; r.d[i] = da * a.d[i] + db * b.d[i]; }
		else if (a.nz[i]) { r.nz[i] = true; r.d[i] = da * a.d[i]; }
		else if (b.nz[i]) { r.nz[i] = true; r.d[i] = db * b.d[i]; }
	}
	return r;
}
template<int N> static Dual<N> operator+(const Dual<N> &a, const Dual<N> &b) { return chain2(a.v + b.v, a, 1.f, b, 1.f); }
template<int N> static Dual<N> operator-(const Dual<N> &a, const Dual<N> &b) { return chain2(a.v - b.v, a, 1.f, b, -1.f); }
template<int N> static Dual<N> operator*(const Dual<N> &a, const Dual<N> &b) { return chain2(a.v * b.v, a, b.v, b, a.v); }
template<int N> static Dual<N> operator/(const Dual<N> &a, const Dual<N> &b) { return chain2(a.v / b.v, a, 1.f / b.v, b, -a.v / (b.v * b.v)); }
template<int N> static Dual<N> operator+(const Dual<N> &a, float b) { return a + Dual<N>(b); }
template<int N> static Dual<N> operator-(const Dual<N> &a, float b) { return a - Dual<N>(b); }
template<int N> static Dual<N> operator*(const Dual<N> &a, float b) { return a * Dual<N>(b); }
template<int N> static Dual<N> operator*(float a, const Dual<N> &b) { return Dual<N>(a) * b; }
template<int N> static Dual<N> operator-(const Dual<N> &a) { return chain(-a.v, a, -1.f); }
template<int N> static Dual<N> dsqrt(const Dual<N> &a) { const float s = sqrtf(a.v); return chain(s, a, 0.5f / s); }
template<int N> static Dual<N> datan2(const Dual<N> &y, const Dual<N> &x)
{
	const float n = x.v * x.v + y.v * y.v;
	return chain2(atan2f(y.v, x.v), y, x.v / n, x, -y.v / n);
}

// rotation matrix body to earth, homogeneous in the quaternion
template<class T> static void rot_matrix(const T q[4], T R[3][3])
{
	R[0][0] = q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3];
	R[1][1] = q[0] * q[0] - q[1] * q[1] + q[2] * q[2] - q[3] * q[3];
	R[2][2] = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3];
	R[0][1] = T(2.f) * (q[1] * q[2] - q[0] * q[3]);
	R[0][2] = T(2.f) * (q[0] * q[2] + q[1] * q[3]);
	R[1][0] = T(2.f) * (q[1] * q[2] + q[0] * q[3]);
	R[1][2] = T(2.f) * (q[2] * q[3] - q[0] * q[1]);
	R[2][0] = T(2.f) * (q[1] * q[3] - q[0] * q[2]);
	R[2][1] = T(2.f) * (q[0] * q[1] + q[2] * q[3]);
}
// obligation label with matrix indices
static const char *idx_label(const char *text, int r, int c)
{
	static char buf[8][96];
	static int k = 0;
	char *b = buf[k = (k + 1) & 7];
	int n = 0;
	while (text[n] && n < 80) { b[n] = text[n]; n++; }
	const int v[2] = {r, c};
	for (int i = 0; i < 2; i++) {
		b[n++] = i ? ',' : ' ';
		if (v[i] >= 10) { b[n++] = '0' + v[i] / 10; }
		b[n++] = '0' + v[i] % 10;
	}
	b[n] = 0;
	return b;
}
