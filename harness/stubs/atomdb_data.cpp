// Stand-in for the generated (not committed) table src/general/atomdb_data.cpp: a tiny three-element database.
// The arrays have room for more orbitals and are not constant, so that a driver can fill in atoms of its own.
namespace helfem { namespace atomdb { namespace data {
  int max_Z=3, lmax=3, Nbf=8, nelem=3, nnodes=4, primbas=4, nquad=12, norbital=5;
  double bval[]={0.0,0.5,2.0,6.0};
  int norb[3][4]={{1,0,0,0},{1,0,0,0},{2,1,0,0}};
  int offset[3][4]={{0,0,0,0},{1,0,0,0},{2,4,0,0}};
  double occupations[32]={1.0,2.0,2.0,0.75,0.25};
  double coefficients[32*8]={
    0.2,0.5,0.7,0.6,0.4,0.2,0.1,0.05,
    0.4,0.8,0.9,0.5,0.2,0.1,0.05,0.01,
    0.5,0.9,0.8,0.3,0.1,0.05,0.02,0.01,
    -0.1,-0.2,0.1,0.4,0.6,0.4,0.2,0.1,
    0.1,0.2,0.3,0.4,0.5,0.3,0.2,0.1};
}}}
