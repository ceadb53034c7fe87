// Builds primary distributions from their descriptions (shared by the distribution drivers).
#pragma once
#include "vdrv.h"
#include <memory>
#include "SIREN/distributions/Distributions.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
#include "SIREN/distributions/primary/PrimaryExternalDistribution.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/math/Vector3D.h"
namespace vd {
namespace sd = siren::distributions; namespace dc = siren::dataclasses;
typedef std::shared_ptr<sd::PrimaryInjectionDistribution> PD;
inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
inline siren::math::Vector3D vec(JV const & v) { return siren::math::Vector3D(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble()); }
inline dc::InteractionRecord event(double E, siren::math::Vector3D const & d, double m = 0) {
    dc::InteractionRecord r; r.signature.primary_type = dc::ParticleType::NuMu; double p = std::sqrt(std::max(0.0, E*E - m*m));
    r.primary_mass = m; r.primary_momentum = {E, p*d.GetX(), p*d.GetY(), p*d.GetZ()}; r.primary_helicity = -0.5; return r;
}
inline double gp(sd::WeightableDistribution const & d, dc::InteractionRecord const & r) { return d.GenerationProbability(nullptr, nullptr, r); }
}
