COMMON = ("Every obligation of the listed contracts is discharged for all inputs on every run from /repo's current source; "
          "popver's semantics of the libraries is trusted and compared with the real ones by evaluating the contracts "
          "under CPython.")
NOTE = {
    "C01": "IEEE doubles; bounds, fixing and ownership for any declaration.",
    "C02": "IEEE doubles for comparisons (reals for galactic latitudes, which astropy computes and the proof leaves uninterpreted).",
}
