TECH = dict(model_checking="bounded-exhaustive explicit-state model checking of the real code against a reference model (all states / operation sequences of a finite alphabet)",
            exploration="bounded-exhaustive model checking: complete enumeration of a finite input/configuration lattice on the real code against a reference model")
REASON = {}
NOTE = {
 "P01": "Every system x source of a special-valued lattice; reported image sets compared element by element with certified reference sets.",
 "P02": "Every system x source x shape of a special-valued lattice compared with a certified image sum.",
 "P05": "Complete digraph of warm starts between all polynomials with roots in a finite alphabet; exact oracle.",
 "P21": "Every small data set / design / prior of a finite alphabet against the dense Gaussian density.",
 "P22": "Every small data set of a finite alphabet against exact rational least squares.",
 "P23": "Every short array over a small alphabet (all lengths up to a bound) against the documented contract.",
}
