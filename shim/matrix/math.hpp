/*
 * Stand-in for the PX4/Matrix header library (github.com/PX4/Matrix @ f981cea2), which CMakeLists.txt
 * downloads and which is not available offline.  Written from Matrix' documented interface; the scalar
 * formulas follow upstream.  This file is the *assumed contract on the dependency* (see DESIGN.md):
 * what is proved about /repo is proved relative to it.
 */
#pragma once
#include <math.h>
#include <float.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifndef M_PI
#define M_PI 3.141592653589793238462643383280
#endif
#ifndef M_TWOPI
#define M_TWOPI (M_PI * 2.0)
#endif

namespace matrix
{
template<typename Type, size_t M> class Vector;
template<typename Type, size_t M, size_t N> class Matrix;
template<typename Type, size_t M> class SquareMatrix;
template<typename Type> class Vector2;
template<typename Type> class Vector3;
template<typename Type> class Dcm;
template<typename Type> class Euler;
template<typename Type> class Quaternion;
template<typename Type> class AxisAngle;
template<typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice;

template<bool B> struct EnableIf {};
template<> struct EnableIf<true> { using type = void; };

template<typename T> bool is_finite(T x) { return __builtin_isfinite(x); }

template<typename Type>
Type wrap(Type x, Type low, Type high)
{
	// already in range
	if (low <= x && x < high) { return x; }

	const Type range = high - low;
	const Type inv_range = Type(1) / range; // should evaluate at compile time, multiplies below at runtime
	const Type num_wraps = floor((x - low) * inv_range);
	return x - range * num_wraps;
}
inline float wrap_floatf(float x, float low, float high)
{
	if (low <= x && x < high) { return x; }
	const float range = high - low;
	const float inv_range = 1.f / range;
	const float num_wraps = floorf((x - low) * inv_range);
	return x - range * num_wraps;
}
template<> inline float wrap<float>(float x, float low, float high) { return wrap_floatf(x, low, high); }

template<typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template<typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(M_TWOPI)); }

template<typename Type> Type min(Type x, Type y) { return (x < y) ? x : y; }
template<typename Type> Type max(Type x, Type y) { return (x > y) ? x : y; }
template<typename Type> Type constrain(Type x, Type lower_bound, Type upper_bound)
{
	return (x < lower_bound) ? lower_bound : (x > upper_bound) ? upper_bound : x;
}

template<typename Type, size_t M, size_t N>
class Matrix
{
public:
	Type _data[M][N] {};

	Matrix() = default;
	explicit Matrix(const Type data_[M * N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[N * i + j]; } }
	}
	explicit Matrix(const Type data_[M][N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[i][j]; } }
	}
	Matrix(const Matrix &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = other._data[i][j]; } }
	}
	template<size_t P, size_t Q>
	Matrix(const Slice<Type, M, N, P, Q> &in_slice)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = in_slice(i, j); } }
	}

	inline const Type &operator()(size_t i, size_t j) const { return _data[i][j]; }
	inline Type &operator()(size_t i, size_t j) { return _data[i][j]; }

	Matrix &operator=(const Matrix &other)
	{
		if (this != &other) {
			for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = other._data[i][j]; } }
		}
		return *this;
	}

	void copyTo(Type dst[M * N]) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { dst[N * i + j] = _data[i][j]; } }
	}

	template<size_t P>
	Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &other) const
	{
		const Matrix<Type, M, N> &self = *this;
		Matrix<Type, M, P> res{};
		for (size_t i = 0; i < M; i++) {
			for (size_t k = 0; k < P; k++) {
				for (size_t j = 0; j < N; j++) { res(i, k) += self(i, j) * other(j, k); }
			}
		}
		return res;
	}
	Matrix emult(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] * other(i, j); } }
		return res;
	}
	Matrix edivide(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] / other(i, j); } }
		return res;
	}
	Matrix operator+(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] + other(i, j); } }
		return res;
	}
	Matrix operator-(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] - other(i, j); } }
		return res;
	}
	Matrix operator-() const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = -_data[i][j]; } }
		return res;
	}
	void operator+=(const Matrix &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += other(i, j); } }
	}
	void operator-=(const Matrix &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] -= other(i, j); } }
	}
	template<size_t P>
	void operator*=(const Matrix<Type, N, P> &other) { Matrix<Type, M, N> &self = *this; self = self * other; }
	Matrix operator*(Type scalar) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] * scalar; } }
		return res;
	}
	inline Matrix operator/(Type scalar) const { return (*this) * (1 / scalar); }
	Matrix operator+(Type scalar) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] + scalar; } }
		return res;
	}
	inline Matrix operator-(Type scalar) const { return (*this) + (-1 * scalar); }
	void operator*=(Type scalar)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] *= scalar; } }
	}
	void operator/=(Type scalar) { Matrix &self = *this; self = self * (Type(1) / scalar); }
	inline void operator+=(Type scalar) { *this = (*this) + scalar; }
	inline void operator-=(Type scalar) { *this = (*this) - scalar; }
	bool operator==(const Matrix &other) const;
	bool operator!=(const Matrix &other) const { return !(*this == other); }

	Matrix<Type, N, M> transpose() const
	{
		Matrix<Type, N, M> res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(j, i) = _data[i][j]; } }
		return res;
	}
	inline Matrix<Type, N, M> T() const { return transpose(); }

	template<size_t P, size_t Q>
	const Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const { return Slice<Type, P, Q, M, N>(x0, y0, this); }
	template<size_t P, size_t Q>
	Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) { return Slice<Type, P, Q, M, N>(x0, y0, this); }
	const Slice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	const Slice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }
	void setRow(size_t i, const Matrix<Type, N, 1> &row_in) { for (size_t j = 0; j < N; j++) { _data[i][j] = row_in(j, 0); } }
	void setRow(size_t i, Type val) { for (size_t j = 0; j < N; j++) { _data[i][j] = val; } }
	void setCol(size_t j, const Matrix<Type, M, 1> &column) { for (size_t i = 0; i < M; i++) { _data[i][j] = column(i, 0); } }
	void setCol(size_t j, Type val) { for (size_t i = 0; i < M; i++) { _data[i][j] = val; } }

	void setZero() { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = Type(0); } } }
	inline void zero() { setZero(); }
	void setAll(Type val) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = val; } } }
	inline void setOne() { setAll(1); }
	inline void setNaN() { setAll(NAN); }
	void setIdentity()
	{
		setZero();
		const size_t min_i = M > N ? N : M;
		for (size_t i = 0; i < min_i; i++) { _data[i][i] = 1; }
	}
	inline void identity() { setIdentity(); }

	Matrix abs() const
	{
		Matrix r;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = Type(fabs(_data[i][j])); } }
		return r;
	}
	Type max() const
	{
		Type max_val = _data[0][0];
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { Type val = _data[i][j]; if (val > max_val) { max_val = val; } } }
		return max_val;
	}
	Type min() const
	{
		Type min_val = _data[0][0];
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { Type val = _data[i][j]; if (val < min_val) { min_val = val; } } }
		return min_val;
	}
	bool isAllNan() const
	{
		bool r = true;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r = r && __builtin_isnan(_data[i][j]); } }
		return r;
	}
};

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> operator*(Type scalar, const Matrix<Type, M, N> &other) { return other * scalar; }

template<typename Type, size_t M, size_t N>
bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = 1e-4f)
{
	bool equal = true;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (fabs(x(i, j) - y(i, j)) > eps) { equal = false; } } }
	return equal;
}
template<typename Type, size_t M, size_t N>
bool Matrix<Type, M, N>::operator==(const Matrix &other) const { return isEqual(*this, other, Type(FLT_EPSILON)); }

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Type lower_bound, const Type upper_bound)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = constrain(x(i, j), lower_bound, upper_bound); } }
	return m;
}
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &lower_bound, const Matrix<Type, M, N> &upper_bound)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = constrain(x(i, j), lower_bound(i, j), upper_bound(i, j)); } }
	return m;
}
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Matrix<Type, M, N> &x, const Type b)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = min(x(i, j), b); } }
	return m;
}
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Matrix<Type, M, N> &x, const Type b)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = max(x(i, j), b); } }
	return m;
}

template<typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice
{
public:
	Slice(size_t x0, size_t y0, const Matrix<Type, M, N> *data) : _x0(x0), _y0(y0), _data(const_cast<Matrix<Type, M, N>*>(data)) {}
	Slice(const Slice &) = default;

	const Type &operator()(size_t i, size_t j) const { return (*_data)(_x0 + i, _y0 + j); }
	Type &operator()(size_t i, size_t j) { return (*_data)(_x0 + i, _y0 + j); }
	const Type &operator()(size_t i) const { return (P == 1) ? (*_data)(_x0, _y0 + i) : (*_data)(_x0 + i, _y0); }
	Type &operator()(size_t i) { return (P == 1) ? (*_data)(_x0, _y0 + i) : (*_data)(_x0 + i, _y0); }

	template<size_t MM, size_t NN>
	Slice &operator=(const Slice<Type, P, Q, MM, NN> &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } }
		return *this;
	}
	Slice &operator=(const Slice &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } }
		return *this;
	}
	Slice &operator=(const Matrix<Type, P, Q> &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } }
		return *this;
	}
	Slice &operator=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other; } }
		return *this;
	}
	// a row slice assigned from a (column) vector
	template<size_t L>
	Slice &operator=(const Vector<Type, L> &other)
	{
		static_assert((P == 1 && Q == L) || (Q == 1 && P == L), "size");
		for (size_t i = 0; i < L; i++) { (*this)(i) = other(i); }
		return *this;
	}
	void operator+=(const Matrix<Type, P, Q> &other) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other(i, j); } } }
	void operator-=(const Matrix<Type, P, Q> &other) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other(i, j); } } }
	template<size_t MM, size_t NN>
	void operator+=(const Slice<Type, P, Q, MM, NN> &other) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other(i, j); } } }
	template<size_t MM, size_t NN>
	void operator-=(const Slice<Type, P, Q, MM, NN> &other) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other(i, j); } } }
	void operator+=(const Type &v) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) += v; } } }
	void operator-=(const Type &v) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= v; } } }
	void operator*=(const Type &v) { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) *= v; } } }
	void operator/=(const Type &v) { const Type inv = Type(1) / v; for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) *= inv; } } }
	Matrix<Type, P, Q> operator*(const Type &v) const { return Matrix<Type, P, Q>(*this) * v; }
	Matrix<Type, P, Q> operator/(const Type &v) const { return (*this) * (Type(1) / v); }
	Matrix<Type, P, Q> operator+(const Matrix<Type, P, Q> &o) const { return Matrix<Type, P, Q>(*this) + o; }
	Matrix<Type, P, Q> operator-(const Matrix<Type, P, Q> &o) const { return Matrix<Type, P, Q>(*this) - o; }
	template<size_t R, size_t S>
	const Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) const { return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _data); }
	template<size_t R, size_t S>
	Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) { return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _data); }
	void copyTo(Type dst[P * Q]) const { for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { dst[i * Q + j] = (*this)(i, j); } } }
	Vector < Type, P < Q ? P : Q > diag() const
	{
		Vector < Type, P < Q ? P : Q > res;
		for (size_t j = 0; j < (P < Q ? P : Q); j++) { res(j) = (*this)(j, j); }
		return res;
	}
	Type norm_squared() const
	{
		Type accum(0);
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { accum += (*this)(i, j) * (*this)(i, j); } }
		return accum;
	}
	Type norm() const { return Type(sqrt(norm_squared())); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
	Type max() const { Type m = (*this)(0, 0); for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { if ((*this)(i, j) > m) { m = (*this)(i, j); } } } return m; }
	Type min() const { Type m = (*this)(0, 0); for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { if ((*this)(i, j) < m) { m = (*this)(i, j); } } } return m; }

	size_t _x0, _y0;
	Matrix<Type, M, N> *_data;
};

template<typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
public:
	using MatrixM1 = Matrix<Type, M, 1>;
	Vector() = default;
	Vector(const MatrixM1 &other) : MatrixM1(other) {}
	explicit Vector(const Type data_[M]) : MatrixM1(data_) {}
	template<size_t P, size_t Q>
	Vector(const Slice<Type, M, 1, P, Q> &s) : MatrixM1(s) {}
	template<size_t P, size_t Q, size_t L = M, typename = typename EnableIf<L != 1>::type>
	Vector(const Slice<Type, 1, L, P, Q> &s) { for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); } }

	inline const Type &operator()(size_t i) const { return MatrixM1::_data[i][0]; }
	inline Type &operator()(size_t i) { return MatrixM1::_data[i][0]; }
	inline const Type &operator()(size_t i, size_t j) const { return MatrixM1::_data[i][j]; }
	inline Type &operator()(size_t i, size_t j) { return MatrixM1::_data[i][j]; }

	Type dot(const MatrixM1 &b) const
	{
		Type r(0);
		for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(i, 0); }
		return r;
	}
	inline Type operator*(const MatrixM1 &b) const { return dot(b); }
	inline Vector operator*(Type b) const { return Vector(MatrixM1::operator*(b)); }
	Type norm() const { return Type(sqrt(dot(*this))); }
	Type norm_squared() const { return dot(*this); }
	inline Type length() const { return norm(); }
	inline void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5)) const { const Type n = norm(); if (n > eps) { return (*this) / n; } return Vector(); }
	inline Vector normalized() const { return unit(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
};

template<typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	using Base = Matrix<Type, M, M>;
	SquareMatrix() = default;
	explicit SquareMatrix(const Type data_[M][M]) : Base(data_) {}
	explicit SquareMatrix(const Type data_[M * M]) : Base(data_) {}
	SquareMatrix(const Base &other) : Base(other) {}
	template<size_t P, size_t Q>
	SquareMatrix(const Slice<Type, M, M, P, Q> &s) : Base(s) {}
	SquareMatrix &operator=(const Base &other) { Base::operator=(other); return *this; }
	template<size_t P, size_t Q>
	SquareMatrix &operator=(const Slice<Type, M, M, P, Q> &s) { Base::operator=(Base(s)); return *this; }

	Vector<Type, M> diag() const
	{
		Vector<Type, M> res;
		for (size_t i = 0; i < M; i++) { res(i) = (*this)(i, i); }
		return res;
	}
	Type trace() const { Type res = 0; for (size_t i = 0; i < M; i++) { res += (*this)(i, i); } return res; }
	template<size_t Width>
	Type trace(size_t first) const { Type res = 0; for (size_t i = 0; i < Width; i++) { res += (*this)(first + i, first + i); } return res; }

	// zero all offdiagonal elements and keep corresponding diagonal elements
	template<size_t Width>
	void uncorrelateCovariance(size_t first)
	{
		SquareMatrix &self = *this;
		Vector<Type, Width> diag_elements = self.template slice<Width, Width>(first, first).diag();
		self.template uncorrelateCovarianceSetVariance<Width>(first, diag_elements);
	}
	template<size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		SquareMatrix &self = *this;
		// zero rows and columns
		self.template slice<Width, M>(first, 0) = Type(0);
		self.template slice<M, Width>(0, first) = Type(0);
		// set diagonals
		for (size_t i = 0; i < Width; i++) { self(first + i, first + i) = vec(i); }
	}
	template<size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		SquareMatrix &self = *this;
		self.template slice<Width, M>(first, 0) = Type(0);
		self.template slice<M, Width>(0, first) = Type(0);
		for (size_t i = 0; i < Width; i++) { self(first + i, first + i) = val; }
	}
	// make block diagonal symmetric by taking the average of the two corresponding off diagonal values
	template<size_t Width>
	void makeBlockSymmetric(size_t first)
	{
		SquareMatrix &self = *this;
		if (Width > 1) {
			for (size_t row_idx = first + 1; row_idx < first + Width; row_idx++) {
				for (size_t col_idx = first; col_idx < row_idx; col_idx++) {
					Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
					self(row_idx, col_idx) = tmp;
					self(col_idx, row_idx) = tmp;
				}
			}
		}
	}
	// make rows and columns symmetric by taking the average of the two corresponding off diagonal values
	template<size_t Width>
	void makeRowColSymmetric(size_t first)
	{
		SquareMatrix &self = *this;
		self.template makeBlockSymmetric<Width>(first);
		for (size_t row_idx = first; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = 0; col_idx < first; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp;
				self(col_idx, row_idx) = tmp;
			}
			for (size_t col_idx = first + Width; col_idx < M; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp;
				self(col_idx, row_idx) = tmp;
			}
		}
	}
};

template<typename Type, size_t M>
SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template<typename Type, size_t M>
SquareMatrix<Type, M> diag(Vector<Type, M> d)
{
	SquareMatrix<Type, M> m;
	for (size_t i = 0; i < M; i++) { m(i, i) = d(i); }
	return m;
}

template<typename Type>
class Vector2 : public Vector<Type, 2>
{
public:
	using Vec = Vector<Type, 2>;
	Vector2() = default;
	Vector2(const Matrix<Type, 2, 1> &other) : Vec(other) {}
	explicit Vector2(const Type data_[2]) : Vec(data_) {}
	Vector2(Type x, Type y) { (*this)(0) = x; (*this)(1) = y; }
	template<size_t P, size_t Q>
	Vector2(const Slice<Type, 2, 1, P, Q> &s) : Vec(s) {}
	template<size_t P, size_t Q>
	Vector2(const Slice<Type, 1, 2, P, Q> &s) { (*this)(0) = s(0, 0); (*this)(1) = s(0, 1); }
	explicit Vector2(const Vector3<Type> &o);
	Type cross(const Matrix<Type, 2, 1> &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const Matrix<Type, 2, 1> &b) const { return cross(b); }
};

template<typename Type>
class Vector3 : public Vector<Type, 3>
{
public:
	using Vec = Vector<Type, 3>;
	Vector3() = default;
	Vector3(const Matrix<Type, 3, 1> &other) : Vec(other) {}
	explicit Vector3(const Type data_[3]) : Vec(data_) {}
	Vector3(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	template<size_t P, size_t Q>
	Vector3(const Slice<Type, 3, 1, P, Q> &s) : Vec(s) {}
	template<size_t P, size_t Q>
	Vector3(const Slice<Type, 1, 3, P, Q> &s) { (*this)(0) = s(0, 0); (*this)(1) = s(0, 1); (*this)(2) = s(0, 2); }

	Vector3 cross(const Matrix<Type, 3, 1> &b) const
	{
		const Vector3 &a = *this;
		return {a(1)*b(2, 0) - a(2)*b(1, 0), -a(0)*b(2, 0) + a(2)*b(0, 0), a(0)*b(1, 0) - a(1)*b(0, 0)};
	}
	inline Vector3 operator+(Vector3 other) const { return Matrix<Type, 3, 1>::operator+(other); }
	inline Vector3 operator+(Type scalar) const { return Matrix<Type, 3, 1>::operator+(scalar); }
	inline Vector3 operator-(Vector3 other) const { return Matrix<Type, 3, 1>::operator-(other); }
	inline Vector3 operator-(Type scalar) const { return Matrix<Type, 3, 1>::operator-(scalar); }
	inline Vector3 operator-() const { return Matrix<Type, 3, 1>::operator-(); }
	inline Vector3 operator*(Type scalar) const { return Matrix<Type, 3, 1>::operator*(scalar); }
	inline Type operator*(Vector3 b) const { return Vec::operator*(b); }
	inline Vector3 operator%(const Matrix<Type, 3, 1> &b) const { return cross(b); }
	const Slice<Type, 2, 1, 3, 1> xy() const { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	Slice<Type, 2, 1, 3, 1> xy() { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	Dcm<Type> hat() const;
	Vector3 unit() const { return Vector3(Vec::unit()); }
	inline Vector3 normalized() const { return unit(); }
};
template<typename Type> Vector2<Type>::Vector2(const Vector3<Type> &o) { (*this)(0) = o(0); (*this)(1) = o(1); }

template<typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &other) : Vector<Type, 3>(other) {}
	Euler(const Matrix<Type, 3, 1> &other) : Vector<Type, 3>(other) {}
	Euler(Type phi_, Type theta_, Type psi_) { phi() = phi_; theta() = theta_; psi() = psi_; }
	Euler(const Dcm<Type> &dcm)
	{
		theta() = Type(asin(-dcm(2, 0)));

		if ((fabs(theta() - Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = Type(atan2(dcm(1, 2), dcm(0, 2)));

		} else if ((fabs(theta() + Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = Type(atan2(-dcm(1, 2), -dcm(0, 2)));

		} else {
			phi() = Type(atan2(dcm(2, 1), dcm(2, 2)));
			psi() = Type(atan2(dcm(1, 0), dcm(0, 0)));
		}
	}
	Euler(const Quaternion<Type> &q) : Euler(Dcm<Type>(q)) {}
	inline Type phi() const { return (*this)(0); }
	inline Type theta() const { return (*this)(1); }
	inline Type psi() const { return (*this)(2); }
	inline Type &phi() { return (*this)(0); }
	inline Type &theta() { return (*this)(1); }
	inline Type &psi() { return (*this)(2); }
};

template<typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	Dcm() { (*this)(0, 0) = 1; (*this)(1, 1) = 1; (*this)(2, 2) = 1; }
	explicit Dcm(const Type data_[3][3]) : SquareMatrix<Type, 3>(data_) {}
	explicit Dcm(const Type data_[9]) : SquareMatrix<Type, 3>(data_) {}
	Dcm(const Matrix<Type, 3, 3> &other) : SquareMatrix<Type, 3>(other) {}
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0);
		const Type b = q(1);
		const Type c = q(2);
		const Type d = q(3);
		const Type aa = a * a;
		const Type ab = a * b;
		const Type ac = a * c;
		const Type ad = a * d;
		const Type bb = b * b;
		const Type bc = b * c;
		const Type bd = b * d;
		const Type cc = c * c;
		const Type cd = c * d;
		const Type dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd;
		dcm(0, 1) = Type(2) * (bc - ad);
		dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad);
		dcm(1, 1) = aa - bb + cc - dd;
		dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac);
		dcm(2, 1) = Type(2) * (ab + cd);
		dcm(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &euler)
	{
		Dcm &dcm = *this;
		Type cosPhi = Type(cos(euler.phi()));
		Type sinPhi = Type(sin(euler.phi()));
		Type cosThe = Type(cos(euler.theta()));
		Type sinThe = Type(sin(euler.theta()));
		Type cosPsi = Type(cos(euler.psi()));
		Type sinPsi = Type(sin(euler.psi()));
		dcm(0, 0) = cosThe * cosPsi;
		dcm(0, 1) = -cosPhi * sinPsi + sinPhi * sinThe * cosPsi;
		dcm(0, 2) = sinPhi * sinPsi + cosPhi * sinThe * cosPsi;
		dcm(1, 0) = cosThe * sinPsi;
		dcm(1, 1) = cosPhi * cosPsi + sinPhi * sinThe * sinPsi;
		dcm(1, 2) = -sinPhi * cosPsi + cosPhi * sinThe * sinPsi;
		dcm(2, 0) = -sinThe;
		dcm(2, 1) = sinPhi * cosThe;
		dcm(2, 2) = cosPhi * cosThe;
	}
	Dcm(const AxisAngle<Type> &aa) : Dcm(Quaternion<Type>(aa)) {}
	Vector3<Type> vee() const { return Vector3<Type>(-(*this)(1, 2), (*this)(0, 2), -(*this)(0, 1)); }
	void renormalize()
	{
		for (size_t r = 0; r < 3; r++) {
			Vector3<Type> rvec((*this).row(r));
			(*this).setRow(r, rvec.normalized());
		}
	}
};
template<typename Type> Dcm<Type> Vector3<Type>::hat() const
{
	const Vector3 &v(*this);
	Dcm<Type> A;
	A(0, 0) = 0; A(0, 1) = -v(2); A(0, 2) = v(1);
	A(1, 0) = v(2); A(1, 1) = 0; A(1, 2) = -v(0);
	A(2, 0) = -v(1); A(2, 1) = v(0); A(2, 2) = 0;
	return A;
}

template<typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	Quaternion() { (*this)(0) = 1; (*this)(1) = 0; (*this)(2) = 0; (*this)(3) = 0; }
	explicit Quaternion(const Type data_[4]) : Vector<Type, 4>(data_) {}
	Quaternion(const Matrix<Type, 4, 1> &other) : Vector<Type, 4>(other) {}
	Quaternion(Type a, Type b, Type c, Type d) { (*this)(0) = a; (*this)(1) = b; (*this)(2) = c; (*this)(3) = d; }
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R(0, 0) + R(1, 1) + R(2, 2);

		if (t > Type(0)) {
			t = sqrt(Type(1) + t);
			q(0) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(0, 2) - R(2, 0)) * t;
			q(3) = (R(1, 0) - R(0, 1)) * t;

		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2));
			q(1) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(0, 2) + R(2, 0)) * t;

		} else if (R(1, 1) > R(2, 2)) {
			t = sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2));
			q(2) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t;
			q(1) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(2, 1) + R(1, 2)) * t;

		} else {
			t = sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2));
			q(3) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t;
			q(1) = (R(0, 2) + R(2, 0)) * t;
			q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}
	Quaternion(const Euler<Type> &euler)
	{
		Quaternion &q = *this;
		Type cosPhi_2 = Type(cos(euler.phi() / Type(2)));
		Type cosTheta_2 = Type(cos(euler.theta() / Type(2)));
		Type cosPsi_2 = Type(cos(euler.psi() / Type(2)));
		Type sinPhi_2 = Type(sin(euler.phi() / Type(2)));
		Type sinTheta_2 = Type(sin(euler.theta() / Type(2)));
		Type sinPsi_2 = Type(sin(euler.psi() / Type(2)));
		q(0) = cosPhi_2 * cosTheta_2 * cosPsi_2 + sinPhi_2 * sinTheta_2 * sinPsi_2;
		q(1) = sinPhi_2 * cosTheta_2 * cosPsi_2 - cosPhi_2 * sinTheta_2 * sinPsi_2;
		q(2) = cosPhi_2 * sinTheta_2 * cosPsi_2 + sinPhi_2 * cosTheta_2 * sinPsi_2;
		q(3) = cosPhi_2 * cosTheta_2 * sinPsi_2 - sinPhi_2 * sinTheta_2 * cosPsi_2;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		Type angle = aa.norm();
		Vector<Type, 3> axis = aa.axis();

		if (angle < Type(1e-10)) {
			q(0) = Type(1.0);
			q(1) = q(2) = q(3) = 0;

		} else {
			Type magnitude = Type(sin(angle / Type(2)));
			q(0) = Type(cos(angle / Type(2)));
			q(1) = axis(0) * magnitude;
			q(2) = axis(1) * magnitude;
			q(3) = axis(2) * magnitude;
		}
	}
	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return Quaternion(
			       q(0) * p(0) - q(1) * p(1) - q(2) * p(2) - q(3) * p(3),
			       q(1) * p(0) + q(0) * p(1) - q(3) * p(2) + q(2) * p(3),
			       q(2) * p(0) + q(3) * p(1) + q(0) * p(2) - q(1) * p(3),
			       q(3) * p(0) - q(2) * p(1) + q(1) * p(2) + q(0) * p(3));
	}
	void operator*=(const Quaternion &other) { Quaternion &self = *this; self = self * other; }
	Quaternion operator*(Type scalar) const { return scalar * *this; }
	friend Quaternion operator*(Type scalar, const Quaternion &q) { return Quaternion(scalar * q(0), scalar * q(1), scalar * q(2), scalar * q(3)); }
	void operator*=(Type scalar) { Quaternion &q = *this; q = q * scalar; }
	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		Type normSq = q.dot(q);
		return Quaternion(q(0) / normSq, -q(1) / normSq, -q(2) / normSq, -q(3) / normSq);
	}
	void invert() { *this = this->inversed(); }
	Quaternion canonical() const
	{
		const Quaternion &q = *this;
		for (size_t i = 0; i < 4; i++) { if (fabs(q(i)) > Type(FLT_EPSILON)) { return q * Type(q(i) < Type(0) ? -1 : 1); } }
		return q;
	}
	void canonicalize() { *this = canonical(); }
	Quaternion unit() const { return Quaternion(Vector<Type, 4>::unit()); }
	inline Quaternion normalized() const { return unit(); }
	Vector3<Type> rotateVector(const Vector3<Type> &vec) const
	{
		const Quaternion &q = *this;
		Quaternion v(Type(0), vec(0), vec(1), vec(2));
		Quaternion res = q * v * q.inversed();
		return Vector3<Type>(res(1), res(2), res(3));
	}
	Vector3<Type> imag() const { const Quaternion &q = *this; return Vector3<Type>(q(1), q(2), q(3)); }
	Vector3<Type> dcm_z() const
	{
		const Quaternion &q = *this;
		const Type a = q(0); const Type b = q(1); const Type c = q(2); const Type d = q(3);
		return Vector3<Type>(Type(2) * (a * c + b * d), Type(2) * (c * d - a * b), a * a - b * b - c * c + d * d);
	}
};

template<typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	using Vec = Vector<Type, 3>;
	AxisAngle() = default;
	explicit AxisAngle(const Type data_[3]) : Vec(data_) {}
	AxisAngle(const Vector<Type, 3> &other) : Vec(other) {}
	AxisAngle(const Matrix<Type, 3, 1> &other) : Vec(other) {}
	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		Type mag = q.imag().norm();

		if (fabs(mag) >= Type(1e-10)) {
			v = Type(Type(2) * atan2(mag, q(0)) / mag) * q.imag();

		} else {
			v = q.imag() * Type(Type(2) * (q(0) < 0 ? -1 : 1));
		}
	}
	AxisAngle(const Dcm<Type> &dcm) : AxisAngle(Quaternion<Type>(dcm)) {}
	AxisAngle(const Euler<Type> &euler) : AxisAngle(Quaternion<Type>(euler)) {}
	AxisAngle(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	Vector<Type, 3> axis()
	{
		if (Vec::norm() > 0) { return Vec::unit(); }
		Vector3<Type> r(1, 0, 0);
		return r;
	}
	Vector<Type, 3> axis() const { return const_cast<AxisAngle *>(this)->axis(); }
	Type angle() { return Vec::norm(); }
};

// Vector that only stores nonzero elements, whose indices are known at compile time
// run-time view of the non-zero positions
struct SparseAny {
	const size_t *idx_;
	size_t n_;
	const float *data_() const { return (const float *)(this + 1); }
};

template<size_t N, typename Type, size_t... Idxs>
class SparseVector : public SparseAny
{
public:
	static constexpr size_t Nz = sizeof...(Idxs);
	static constexpr size_t _indices[sizeof...(Idxs)] {Idxs...};
	Type _data[sizeof...(Idxs)] {};
	static constexpr int findCompressedIndex(size_t index)
	{
		int c = -1;
		for (size_t i = 0; i < sizeof...(Idxs); i++) { if (_indices[i] == index) { c = int(i); } }
		return c;
	}
	static constexpr size_t non_zeros() { return Nz; }
	constexpr size_t index(size_t i) const { return SparseVector::_indices[i]; }
	SparseVector() : SparseAny{SparseVector::_indices, sizeof...(Idxs)} {}
	SparseVector(const Vector<Type, N> &data) : SparseVector() { for (size_t i = 0; i < Nz; i++) { _data[i] = data(_indices[i]); } }
	explicit SparseVector(const Type data[sizeof...(Idxs)]) : SparseVector() { for (size_t i = 0; i < Nz; i++) { _data[i] = data[i]; } }
	template<size_t i> inline Type at() const { static constexpr int c = findCompressedIndex(i); static_assert(c >= 0, "cannot access unpopulated indices"); return _data[c]; }
	template<size_t i> inline Type &at() { static constexpr int c = findCompressedIndex(i); static_assert(c >= 0, "cannot access unpopulated indices"); return _data[c]; }
	inline Type atCompressedIndex(size_t i) const { return _data[i]; }
	inline Type &atCompressedIndex(size_t i) { return _data[i]; }
	void setZero() { for (size_t i = 0; i < Nz; i++) { _data[i] = Type(0); } }
	Type dot(const Vector<Type, N> &other) const { Type accum(0); for (size_t i = 0; i < Nz; i++) { accum += _data[i] * other(_indices[i]); } return accum; }
	Type norm_squared() const { Type accum(0); for (size_t i = 0; i < Nz; i++) { accum += _data[i] * _data[i]; } return accum; }
	Type norm() const { return sqrt(norm_squared()); }
};
template<size_t N, typename Type, size_t... Idxs>
constexpr size_t SparseVector<N, Type, Idxs...>::_indices[sizeof...(Idxs)];

template<typename Type, size_t Q, size_t M, size_t... Idxs>
Vector<Type, Q> operator*(const Matrix<Type, Q, M> &mat, const SparseVector<M, Type, Idxs...> &vec)
{
	Vector<Type, Q> res;
	for (size_t i = 0; i < Q; i++) {
		for (size_t k = 0; k < vec.non_zeros(); k++) { res(i) += mat(i, vec.index(k)) * vec.atCompressedIndex(k); }
	}
	return res;
}

// returns x.T * A * x
template<typename Type, size_t M, size_t... Idxs>
Type quadraticForm(const SquareMatrix<Type, M> &A, const SparseVector<M, Type, Idxs...> &x)
{
	Type res = Type(0);
	for (size_t i = 0; i < x.non_zeros(); i++) {
		Type tmp = Type(0);
		for (size_t j = 0; j < x.non_zeros(); j++) { tmp += A(x.index(i), x.index(j)) * x.atCompressedIndex(j); }
		res += x.atCompressedIndex(i) * tmp;
	}
	return res;
}

template<size_t N, size_t... Idxs> using SparseVectorf = SparseVector<N, float, Idxs...>;
using Vector2f = Vector2<float>;
using Vector3f = Vector3<float>;
using Matrix3f = SquareMatrix<float, 3>;
using Dcmf = Dcm<float>;
using Eulerf = Euler<float>;
using Quatf = Quaternion<float>;
using AxisAnglef = AxisAngle<float>;
using SquareMatrix3f = SquareMatrix<float, 3>;
} // namespace matrix
