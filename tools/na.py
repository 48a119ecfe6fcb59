HOOKS = ["403753b28a41218909f093c9d7bf8233e2261a3a", "d8cc76b9c58e2efc93d444e0653a1d8e4dd69081"]
NA = {
    "N01": "the compressors are external libraries without source in the repository; their loops grow with the input and cannot be encoded within reach",
    "N02": "librpm and the rpm database are external, without source in the repository; the checks use its documented contract as a stub",
}
