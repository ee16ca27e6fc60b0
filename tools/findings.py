"""writes known_findings.json (findings are matched by the engine; fixed entries suppress nothing)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # subject fragment -> property
    ("AuxIVA_IP honours n_src=None", "C08"), ("AuxIVA_IP projection back onto", "C08"),
    ("T_ISS projection back onto", "C07"), ("sign of the dereverberation term", "C07"),
    ("FIVE with proj_back_mic=None", "C09"), ("FIVE conjugation", "C09"), ("FIVE with a single power", "C09"),
    ("STFT accepts custom", "C13"), ("WPE resets", "C02"), ("mixed-norm weights", "C16"),
    ("keeps double precision eigenvalues", "C12"), ("returned conjugated eigenvectors", "C12"),
    ("returned null eigenvectors", "C12"), ("diagonal_loading used", "C24"),
    ("ignored --n_iter", "C20"), ("dropped the channels", "C20"), ("crashed when selecting", "C20"),
    ("overwrite its own input", "C20"), ("files sharing a name", "C20"),
    ("interrupted download", "C18"), ("shared a cache entry", "C18"),
    ("crashed on silent frequencies", "C11"), ("of null matrices", "C12"),
    ("IP2 separation depended", "C08"), ("not distortionless", "C11"),
    ("reference response vanishes", "C11"), ("nearly degenerate", "C12"), ("training mode", "C20"), ("ignored a window", "C19"), ("inv_2x2 of a single", "C24"),
    ("bmm and multiply", "C24"), ("T_ISS could not be copied", "C26"), ("BLSTMMask on real", "C26"),
    ("with a model of the weights", "C16"),
    ("with verbose crashed", "C08"), ("items of a batch stopped", "C01"),
    ("identical channels in single", "C23"),
    ("failed for loud signals", "C05"), ("set on BSSSeparator had no effect", "C33"),
    ("missed or overwrote inputs", "C20"), ("shared the memory of the window", "C13"), ("FIVE returned silence", "C23"), ("started from the first microphone", "C23"), ("NMF model could not be copied", "C26"),
    ("wrong for small matrices B", "C12"),
    ("gradient of the Laplace model", "C27"), ("gradient of the NMF model", "C27"), ("gradient of minimum_distortion", "C27"),
]
EXTRA = {}
FINDINGS = json.load(open(os.path.join(ROOT, "tools", "findings_open.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, subj = line.split(" ", 1)
    if not subj.startswith("fix:"):
        continue
    pid = [p for frag, p in MAP if frag in subj]
    assert len(pid) == 1, (subj, pid)
    fixed.append(f"fixed: property={pid[0]} {h[:10]} {subj[4:].strip()}")
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed", len(FINDINGS), "open")
