"""What each property's check runs and which aspects of the specification it is concerned with.

care:  aspects (of those that can be left open in the specification) which belong to the property.  A deviation which
       vanishes when all other aspects are left open concerns another property and is not reported as a violation of this one.
rand:  [(family, quick count, thorough count)] in addition to the directed scenarios tagged with the property.
mc:    model checking configurations."""
ASPECTS = ["ev", "er", "nt", "st", "dp", "url", "form", "tif", "cls", "rt", "leak", "hs", "files", "dir", "size", "enc", "touch", "lsn", "cert"]
ALL = set(ASPECTS)

P = {
    "C01": dict(care={"ev", "er", "dp"}, rand=[("race", 72, 600), ("reload", 24, 150), ("restore", 24, 150), ("mixed", 12, 100)], mc=["Auth", "Refresh"]),
    "C02": dict(care={"dp"}, rand=[("reload", 48, 300), ("race_reload", 24, 200), ("race_snap", 16, 150)], mc=["Reload"]),
    "C03": dict(care={"hs", "er"}, rand=[("auth", 48, 300), ("burst", 18, 100)], mc=["Auth"]),
    "C04": dict(care={"url", "form"}, rand=[("auth", 36, 200), ("reload", 24, 150)], mc=["AuthTwo"]),
    "C05": dict(care=set(), rand=[("mixed", 36, 250), ("refresh", 24, 150), ("burst", 18, 100)], mc=["RefreshLong"]),
    "C06": dict(care=set(), rand=[("race", 48, 400), ("refresh", 36, 250), ("fail", 18, 100)], mc=["Refresh"]),
    "C07": dict(care={"rt"}, rand=[("refresh", 48, 300), ("fail", 24, 150), ("mixed", 12, 80)], mc=["RefreshLong", "Wakeup"]),
    "C08": dict(care={"form", "cls", "dp"}, rand=[("refresh", 36, 250), ("fail", 36, 200)], mc=["RefreshLong"]),
    "C09": dict(care={"tif"}, rand=[("fail", 60, 400)], mc=["RefreshLong"]),
    "C10": dict(care={"nt"}, rand=[("notify", 60, 400), ("mixed", 12, 100), ("race_events", 12, 100)], mc=["Notify", "Wakeup"]),
    "C11": dict(care={"dp"}, rand=[("auth", 36, 250), ("race", 36, 300), ("notify", 18, 100)], mc=["Auth", "AuthTwo"]),
    "C12": dict(care={"ev"}, rand=[("events", 48, 300), ("fail", 18, 100), ("race", 24, 200), ("race_events", 16, 200)], mc=["Events", "Refresh"]),
    "C13": dict(care={"ev"}, rand=[("events", 60, 400), ("race_events", 32, 300), ("race_queue", 16, 150)], mc=["Events", "EventQueue"]),
    "C14": dict(care={"er"}, rand=[("auth", 48, 300), ("race", 24, 150), ("race_events", 12, 100)], mc=["Auth"]),
    "C15": dict(care={"dp"}, rand=[("restore", 60, 400)], mc=["Reload"]),
    "C16": dict(care=set(), rand=[("restore", 24, 150), ("race_snap", 24, 200)], mc=["Reload"]),
    "C17": dict(care={"nt", "ev", "er", "tif", "rt", "url"}, rand=[("reload", 48, 300), ("race_reload", 18, 150)], mc=["Reload"]),
    "C18": dict(care=ALL, rand=[("config", 48, 400), ("config_start", 18, 100)], mc=[]),
    "C19": dict(care={"hs"}, rand=[("mixed", 24, 150), ("hostile", 30, 200)], mc=[]),
    "C20": dict(care={"rt", "nt"}, rand=[("burst", 36, 200), ("mixed", 12, 100)], mc=[]),
    "C21": dict(care={"st", "dp"}, rand=[("mixed", 36, 250), ("fail", 24, 100), ("race_snap", 48, 400), ("race", 24, 150)], mc=["Refresh"]),
    "C22": dict(care=set(), rand=[("cli", 12, 60)], mc=[]),
    "C23": dict(care={"dir"}, rand=[("startup", 12, 60)], mc=["Startup"]),
    "C24": dict(care={"leak", "files"}, rand=[("mixed", 24, 100), ("events", 12, 60)], mc=[]),
    "C25": dict(care={"rt", "nt"}, rand=[("suspend", 60, 400)], mc=["Suspend", "Wakeup"]),
    "C28": dict(care={"enc"}, rand=[("mixed", 24, 100), ("restore", 24, 100)], mc=[]),
    "C29": dict(care={"touch"}, rand=[("mixed", 12, 100), ("suspend", 12, 60)], mc=[]),
    "C30": dict(care={"lsn", "cert"}, rand=[("mixed", 12, 100), ("startup", 12, 60)], mc=[]),
    "C26": dict(care={"hs", "size"}, rand=[("hostile", 18, 100)], mc=[]),
}
