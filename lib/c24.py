import rows


def check(b, r, tier):
    r.rules = ['for every library wrapper and every kind of target (sendable and shareable, one of them, neither; shared, opaque, opaque with a manual '
               'marker), rustc must find each marker trait implemented or not implemented exactly as the table says']
    rows.check(b, r, 'C24', tier, 200)
