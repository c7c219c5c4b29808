#ifndef OMEGA_H_CONFIG_H
#define OMEGA_H_CONFIG_H
#define OMEGA_H_USE_MPI
#define OMEGA_H_USE_ZLIB
#define OMEGA_H_VERSION_MAJOR 9
#define OMEGA_H_VERSION_MINOR 34
#define OMEGA_H_VERSION_PATCH 13
#define OMEGA_H_SEMVER "9.34.13"
#define OMEGA_H_COMMIT "verif"
#define OMEGA_H_CXX_FLAGS ""
#define OMEGA_H_CMAKE_ARGS ""
#endif
