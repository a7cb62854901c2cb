// stand-in for the constants of Thermo4PFM (library absent in this sandbox)
#ifndef STUB_PHYS
#define STUB_PHYS
#define GASCONSTANT_R_JPKPMOL 8.314472
#endif
