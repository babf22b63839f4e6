CATCH = {
 'c18-aniso-correction-sum': 'missed: with the isotropic correction in place of the anisotropic one the two scenarios with anisotropic noise reach their time limit (undecided)',
 'c25-distance-not-flat': 'missed: an evaluation without any criterion lies outside the bounds of C25',
}
