// Stands for the version header of the build; the numbers are generated.
#pragma once
namespace vf_version {
extern int v[3];
}
#define CROCODDYL_MAJOR_VERSION vf_version::v[0]
#define CROCODDYL_MINOR_VERSION vf_version::v[1]
#define CROCODDYL_PATCH_VERSION vf_version::v[2]
