PROPS = {
  "C01": ("fifo.cpp", "TZ"),
  "C02": ("fifo.cpp", "TAZ"),
  "C03": ("shared.cpp", "TZ"),
  "C04": ("shared.cpp", "TA"),
  "C05": ("shared.cpp", "TA"),
  "C06": ("shared.cpp", "TAZ"),
  "C07": ("shared.cpp", "T"),
  "C08": ("sets.cpp", "TA"),
  "C09": ("sets.cpp", "TA"),
  "C10": ("bits.cpp", "TA"),
  "C11": ("bits.cpp", "TA"),
  "C12": ("bits.cpp", "TA"),
  "C13": ("bits.cpp", "TA"),
}
for _i in ("C14", "C15", "C16", "C17", "C18", "C19"): PROPS[_i] = ("decode.cpp", "TA")
for _i in ("C20", "C21", "C22", "C23"): PROPS[_i] = ("time.cpp", "TA")
for _i in ("C24", "C25", "C45"): PROPS[_i] = ("validity.cpp", "TA")
for _i in ("C26", "C27", "C28"): PROPS[_i] = ("pvt.cpp", "TA")
for _i in ("C29", "C30", "C31"): PROPS[_i] = ("reentrancy.cpp", "ZA")
for _i in ("C41", "C43"): PROPS[_i] = ("journey.cpp", "TA")
PROPS["C40"] = ("orbits.cpp", "TA")
PROPS["C46"] = ("tracking.cpp", "TA")
PROPS["C42"] = ("algebra.cpp", "TA")
PROPS["C44"] = ("naming.cpp", "TA")
PROPS["C47"] = ("chain.cpp", "TA")
PROPS["C48"] = ("dataset.cpp", "TA")
