// Uses of public templates that the library itself does not instantiate, so that their definitions are analysed.
// Not compiled into anything: only read by the extractor; left out (with a note) when it does not compile.
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/Network.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>

namespace vp {

using namespace powsybl::iidm;

template <typename E>
void extension(Extendable& e) {
    const Extendable& c = e;
    e.findExtension<E>();
    c.findExtension<E>();
    e.getExtension<E>();
    c.getExtension<E>();
    c.getExtensionByName<E>("");
    e.removeExtension<E>();
}

template <typename T>
void kind(Network& n, VoltageLevel& v) {
    const Network& c = n;
    const VoltageLevel& w = v;
    n.getConnectables<T>();
    c.getConnectables<T>();
    c.getConnectableCount<T>();
    v.getConnectable<T>("");
    w.getConnectable<T>("");
    v.getConnectables<T>();
    w.getConnectables<T>();
    w.getConnectableCount<T>();
}

template <typename T>
void object(Network& n) {
    const Network& c = n;
    n.find<T>("");
    c.find<T>("");
    n.get<T>("");
    c.get<T>("");
}

void all(Network& n, VoltageLevel& v, Extendable& e) {
    extension<extensions::LoadDetail>(e);
    extension<extensions::SlackTerminal>(e);
    kind<Battery>(n, v);
    kind<BusbarSection>(n, v);
    kind<DanglingLine>(n, v);
    kind<Generator>(n, v);
    kind<LccConverterStation>(n, v);
    kind<Line>(n, v);
    kind<Load>(n, v);
    kind<ShuntCompensator>(n, v);
    kind<StaticVarCompensator>(n, v);
    kind<ThreeWindingsTransformer>(n, v);
    kind<TwoWindingsTransformer>(n, v);
    kind<VscConverterStation>(n, v);
    object<Identifiable>(n);
    object<Load>(n);
    object<Line>(n);
    object<Switch>(n);
    object<Substation>(n);
    object<VoltageLevel>(n);
    object<HvdcLine>(n);
}

}  // namespace vp
