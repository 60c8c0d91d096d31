// Arbitrary (uninterpreted) process and measurement models for the filters.
#pragma once
#include "ocommon.h"
template <size_t N, size_t M>
struct UFModel : public SystemModelBase<N, M>
{
    typedef SystemModelBase<N, M> B;
    bool lin;
    StateMatrix<N> Al;
    UFModel() : lin(false) {}
    typename B::state_vector_t computeDynamics(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override
    {
        std::vector<double> a = catT(x, u, dt);
        a.push_back(t);
        StateVector<N> r;
        if (lin) return StateVector<N>(Al * x + bu(u, dt, t));
        for (size_t i = 0; i < N; i++) r(i) = symUF("F" + ::S(i), a);
        return r;
    }
    StateVector<N> bu(const ControlVector<M>& u, double dt, double t)
    {
        StateVector<N> r;
        std::vector<double> a = catT(u, dt);
        a.push_back(t);
        for (size_t i = 0; i < N; i++) r(i) = symUF("bu" + ::S(i), a);
        return r;
    }
    typename B::state_matrix_t computeDerivativeState(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override
    {
        return mat("Fx", x, u, dt, t);
    }
    typename B::state_matrix_t computeDerivativeNoise(const typename B::state_vector_t& x, const typename B::control_vector_t& u, const double dt, double t) override
    {
        return mat("Fv", x, u, dt, t);
    }
    StateMatrix<N> mat(const std::string& n, const StateVector<N>& x, const ControlVector<M>& u, double dt, double t)
    {
        std::vector<double> a = catT(x, u, dt);
        a.push_back(t);
        StateMatrix<N> r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symUF(n + ::S(i) + ::S(j), a);
        return r;
    }
};
template <size_t O, size_t N>
struct UFMeas : public LinearMeasurementModel<O, N>
{
    typedef LinearMeasurementModel<O, N> B;
    bool lin;
    Eigen::Matrix<double, O, N> Cl;
    UFMeas() : lin(false) {}
    typename B::output_vector_t computeMeasurement(const typename B::state_vector_t& x, const double& t = 0) override
    {
        OutputVector<O> r;
        if (lin) return OutputVector<O>(Cl * x);
        for (size_t i = 0; i < O; i++) r(i) = symUF("h" + ::S(i), catT(x, t));
        return r;
    }
    typename B::output_state_matrix_t computeDerivativeState(const typename B::state_vector_t& x, const double& t) override
    {
        typename B::output_state_matrix_t r;
        for (size_t i = 0; i < O; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symUF("hx" + ::S(i) + ::S(j), catT(x, t));
        return r;
    }
    typename B::output_matrix_t computeDerivativeNoise(const typename B::state_vector_t& x, const double& t) override
    {
        typename B::output_matrix_t r;
        for (size_t i = 0; i < O; i++)
            for (size_t j = 0; j < O; j++) r(i, j) = symUF("hw" + ::S(i) + ::S(j), catT(x, t));
        return r;
    }
};
