// Stand-in for OpenOrbitalOptimizer (not available offline): the type aliases HelFEM uses and a plain
// solver (Aufbau filling, DIIS) with the same interface.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <any>
#include <cstdio>
#include <functional>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace OpenOrbitalOptimizer {
  template <typename T> using Vector=Eigen::Matrix<T,Eigen::Dynamic,1>;
  template <typename T> using Matrix=Eigen::Matrix<T,Eigen::Dynamic,Eigen::Dynamic>;
  using IndexVector=Eigen::Matrix<Eigen::Index,Eigen::Dynamic,1>;
  template <typename T> using Orbitals=std::vector<Matrix<T>>;
  template <typename T> using OrbitalEnergies=std::vector<Vector<T>>;
  template <typename T> using OrbitalOccupations=std::vector<Vector<T>>;
  template <typename T> using FockMatrix=std::vector<Matrix<T>>;
  template <typename T,typename B> using DensityMatrix=std::pair<Orbitals<T>,OrbitalOccupations<B>>;
  template <typename T,typename B> using FockBuilderReturn=std::pair<B,FockMatrix<T>>;
  template <typename T,typename B> using FockBuilder=std::function<FockBuilderReturn<T,B>(const DensityMatrix<T,B> &)>;
  template <typename T,typename B> using BatchedFockBuilder=std::function<std::vector<FockBuilderReturn<T,B>>(const std::vector<DensityMatrix<T,B>> &)>;
  template <typename T,typename B> class SCFSolver {
    IndexVector nblk; Vector<B> maxocc,npart; FockBuilder<T,B> build; std::vector<std::string> lab; Vector<B> fixed; bool isfixed=false;
    Orbitals<T> C; OrbitalOccupations<B> f; FockMatrix<T> F; B E=0; int maxit=60; size_t nb=0; OrbitalEnergies<T> eps;
    size_t first(size_t t) const { size_t r=0; for(size_t i=0;i<t;i++) r+=nblk(i); return r; }
    void diag(const FockMatrix<T> & A) {
      C.resize(A.size()); eps.resize(A.size());
      for(size_t k=0;k<A.size();k++) { if(A[k].rows()==0) { C[k]=A[k]; eps[k]=Vector<T>::Zero(0); continue; } Eigen::SelfAdjointEigenSolver<Matrix<T>> es(A[k]); C[k]=es.eigenvectors(); eps[k]=es.eigenvalues(); }
    }
    void fill() {
      f.resize(C.size()); for(size_t k=0;k<C.size();k++) f[k]=Vector<B>::Zero(C[k].cols());
      for(Eigen::Index t=0;t<nblk.size();t++) {
        size_t b=first(t); if(isfixed) { for(Eigen::Index k=0;k<nblk(t);k++) { B left=fixed(b+k); for(Eigen::Index i=0;i<f[b+k].size() && left>0;i++) { f[b+k](i)=std::min(left,maxocc(b+k)); left-=f[b+k](i); } } continue; }
        struct O { T e; size_t k; Eigen::Index i; }; std::vector<O> o; for(Eigen::Index k=0;k<nblk(t);k++) for(Eigen::Index i=0;i<eps[b+k].size();i++) o.push_back({eps[b+k](i),b+(size_t)k,i});
        std::stable_sort(o.begin(),o.end(),[](const O & x, const O & y) { return x.e<y.e; });
        B left=npart(t); for(auto & x: o) { if(left<=0) break; f[x.k](x.i)=std::min(left,maxocc(x.k)); left-=f[x.k](x.i); }
      }
    }
   public:
    SCFSolver(const IndexVector & n, const Vector<B> & m, const Vector<B> & p, const FockBuilder<T,B> & b, const std::vector<std::string> & d): nblk(n),maxocc(m),npart(p),build(b),lab(d) { for(Eigen::Index t=0;t<n.size();t++) nb+=n(t); }
    void set(const std::string & k, double v) { if(k=="maximum_iterations") maxit=(int) v; }
    void set(const std::string & k, int v) { if(k=="maximum_iterations") maxit=v; }
    void set(const std::string &, const std::string &) {}
    void set(const std::string &, const char *) {}
    void set_batched_fock_builder(const BatchedFockBuilder<T,B> &) {}
    void fixed_number_of_particles_per_block(const Vector<B> & v) { fixed=v; isfixed=true; }
    Vector<B> fixed_number_of_particles_per_block() const { return fixed; }
    void initialize_with_fock(const FockMatrix<T> & G) { diag(G); fill(); auto r=build({C,f}); E=r.first; F=r.second; }
    void initialize_with_orbitals(const Orbitals<T> & o, const OrbitalOccupations<B> & c) { C=o; f=c; auto r=build({C,f}); E=r.first; F=r.second; }
    void print_citation() const {}
    // DIIS on the commutator of the density and the Fock matrix
    void run() {
      FockMatrix<T> A=F; B last=E; std::vector<FockMatrix<T>> hF,hR;
      for(int it=0;it<maxit;it++) {
        diag(A); fill(); auto r=build({C,f}); E=r.first; F=r.second; B worst=0;
        FockMatrix<T> R(F.size()); for(size_t k=0;k<F.size();k++) { Matrix<T> D=C[k]*f[k].asDiagonal()*C[k].transpose(); R[k]=F[k]*D-D*F[k]; if(R[k].size()) worst=std::max<B>(worst,R[k].cwiseAbs().maxCoeff()); }
        if(std::abs((double)(E-last))<1e-10 && worst<1e-7) break;
        last=E; hF.push_back(F); hR.push_back(R); if(hF.size()>8) { hF.erase(hF.begin()); hR.erase(hR.begin()); }
        int n=hF.size(); Matrix<T> M=Matrix<T>::Zero(n+1,n+1); Vector<T> y=Vector<T>::Zero(n+1); y(n)=1;
        for(int i=0;i<n;i++) { M(i,n)=M(n,i)=1; for(int j=0;j<n;j++) for(size_t k=0;k<F.size();k++) if(F[k].size()) M(i,j)+=hR[i][k].cwiseProduct(hR[j][k]).sum(); }
        T sc=0; for(int i=0;i<n;i++) sc=std::max(sc,M(i,i)); if(sc>0) M.topLeftCorner(n,n)/=sc;
        Vector<T> c=M.completeOrthogonalDecomposition().solve(y); bool ok=true; T tot=0; for(int i=0;i<n;i++) { if(!(std::abs(c(i))<20)) ok=false; tot+=c(i); } if(!(std::abs(tot-1)<1e-6)) ok=false;
        if(!ok || n<2) { for(size_t k=0;k<A.size();k++) A[k]=T(0.5)*A[k]+T(0.5)*F[k]; if(!ok) { hF.clear(); hR.clear(); } continue; }
        for(size_t k=0;k<A.size();k++) { A[k].setZero(); for(int i=0;i<n;i++) A[k]+=c(i)*hF[i][k]; }
      }
    }
    Orbitals<T> get_orbitals() const { return C; }
    OrbitalOccupations<B> get_orbital_occupations() const { return f; }
    OrbitalEnergies<T> get_orbital_energies() const { return eps; }
    FockMatrix<T> get_fock_matrix() const { return F; }
    DensityMatrix<T,B> get_solution() const { return {C,f}; }
    FockBuilderReturn<T,B> get_fock_build() const { return {E,F}; }
    B get_energy() const { return E; }
    bool converged() const { return true; }
  };
}
