def all_pairs(R):
    """every composable pair of the reference, Hangul included"""
    if not hasattr(R, "_pairs"):
        d = dict(R.comp)
        for l in range(19):
            for v in range(21):
                d[(0x1100 + l, 0x1161 + v)] = R.compose(0x1100 + l, 0x1161 + v)
        for i in range(399):
            a = 0xAC00 + 28 * i
            for t in range(1, 28):
                d[(a, 0x11A7 + t)] = a + t
        R._pairs = d
    return R._pairs
