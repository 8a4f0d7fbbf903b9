"""Random networks for power-flow, topology and sensitivity monitors + independent electrical model."""
from __future__ import annotations

import numpy as np
import pandas as pd

import pypsa

from vlib.gen import R, coin, pick


class PFGen:
    DEFAULT = dict(T=(1, 3), areas=(1, 3), nAC=(1, 7), nDC=0.4, trafo=0.6, parallel=0.4, inactive=0.3, types=0.3, shunt=0.4, links=0.5, multiport=0.4,
                   phase=0.4, tap=0.6, tmodel=0.5, storage=0.5, store=0.4, pv=0.5, signs=0.2, isolated=0.3, gas=0.3, nogen=0.15, hostile_names=0.3, branchy=0.5,
                   zshunt=0.5, vset=0.6, reorder=0.5, dynset=0.6, wide=0.0)

    def __init__(self, rng, **feat):
        self.rng = rng
        self.f = {**self.DEFAULT, **feat}
        self.sig = []

    def has(self, k):
        r = coin(self.rng, float(self.f[k]))
        if r:
            self.sig.append(k)
        return r

    def setp(self, n, c, attr, name, lo, hi, step=0.5):
        """static or dynamic set-point"""
        if coin(self.rng, self.f["dynset"]):
            n.dynamic(c)[attr][name] = [R(self.rng, lo, hi, step) for _ in n.snapshots]
        else:
            n.static(c).loc[name, attr] = R(self.rng, lo, hi, step)

    def act(self):
        if coin(self.rng, 0.5 * self.f["inactive"]):
            self.sig.append("inactive")
            return {"active": False}
        return {}

    def build(self):
        rng, f = self.rng, self.f
        n = pypsa.Network()
        self.n = n
        T = int(rng.integers(f["T"][0], f["T"][1] + 1))
        n.set_snapshots(pd.date_range("2013-10-27", periods=T, freq="h") if coin(rng) else [f"s{i}" for i in range(T)])
        pre = pick(rng, ["Bus é", "1", "x_", "A B-"]) if self.has("hostile_names") else "b"
        names = []
        areas = []
        for a in range(int(rng.integers(f["areas"][0], f["areas"][1] + 1))):
            k = int(rng.integers(f["nAC"][0], f["nAC"][1] + 1))
            areas.append(("AC", [f"{pre}{a}{j}" for j in range(k)]))
        if self.has("nDC"):
            areas.append(("DC", [f"{pre}dc{j}" for j in range(int(rng.integers(2, 5)))]))
        if self.has("isolated"):
            areas.append(("AC", [f"{pre}iso"]))
        if self.has("gas"):
            areas.append(("gas", [f"{pre}gas"]))
        for car, bs in areas:
            names += [(b, car) for b in bs]
        if self.has("reorder"):
            names = [names[i] for i in rng.permutation(len(names))]
        vn = {}
        for b, car in names:
            vn[b] = 200.0 if car == "DC" else 1.0 if car == "gas" else pick(rng, [380.0, 380.0, 110.0]) if f["trafo"] else 380.0
            n.add("Bus", b, carrier=car, v_nom=vn[b])
            if car == "AC" and coin(rng, f["vset"]):
                self.setp(n, "Bus", "v_mag_pu_set", b, 0.97, 1.04, 0.01)
        self.k = 0
        for car, bs in areas:
            if car == "gas":
                continue
            order = list(rng.permutation(len(bs)))
            pairs = [(bs[order[i]], bs[order[int(rng.integers(i))]]) for i in range(1, len(bs))]
            if len(bs) > 2:
                for _ in range(int(rng.integers(0, 4))):
                    i, j = rng.choice(len(bs), 2, replace=False)
                    pairs.append((bs[i], bs[j]))
            if pairs and self.has("parallel"):
                p = pick(rng, pairs)
                pairs.append(p if coin(rng) else p[::-1])
            for i, j in pairs:
                self.branch(i, j, vn, car)
        self.allb = [b for b, _ in names]
        acb = [b for b, c in names if c == "AC"]
        self.oneports(areas, acb)
        if self.has("links") and len(self.allb) > 1:
            self.links()
        return n

    def branch(self, i, j, vn, car):
        n, rng, f = self.n, self.rng, self.f
        k = self.k = self.k + 1
        if vn[i] != vn[j] or (car == "AC" and coin(rng, 0.15 * bool(f["trafo"]))):
            kw = {}
            if self.has("types"):
                kw["type"] = pick(rng, ["160 MVA 380/110 kV", "100 MVA 220/110 kV", "63 MVA 110/20 kV"])
                kw["tap_position"] = int(rng.integers(-4, 5))
                kw["num_parallel"] = R(rng, 0.5, 3, 0.5)
            else:
                kw.update(x=R(rng, 0.05, 0.2, 0.01), r=R(rng, 0.005, 0.03, 0.005), s_nom=R(rng, 80, 300, 10))
                if coin(rng, f["zshunt"]):
                    kw.update(g=R(rng, 0, 0.002, 0.0005), b=R(rng, -0.02, 0.02, 0.005))
                if self.has("tap"):
                    kw["tap_ratio"] = R(rng, 0.95, 1.05, 0.01)
                    kw["tap_side"] = int(rng.integers(0, 2))
                if self.has("phase"):
                    kw["phase_shift"] = R(rng, -6, 6, 0.5)
            kw["model"] = "t" if self.has("tmodel") else "pi"
            n.add("Transformer", f"T{k}", bus0=i, bus1=j, **kw, **self.act())
        else:
            kw = {}
            if car == "AC" and self.has("types"):
                kw["type"] = pick(rng, ["Al/St 240/40 4-bundle 380.0", "Al/St 240/40 2-bundle 220.0", "490-AL1/64-ST1A 380.0"])
                kw["num_parallel"] = R(rng, 0.5, 3, 0.5)
                kw["length"] = R(rng, 5, 60, 1)
            else:
                z = vn[i] ** 2 / 1000.0
                if f["wide"] and coin(rng, f["wide"]):
                    z *= 10.0 ** int(rng.integers(-2, 5))
                    self.sig.append("wide")
                kw.update(x=R(rng, 0.02, 0.3, 0.01) * z, r=R(rng, 0.005, 0.05, 0.005) * z, s_nom=R(rng, 50, 300, 10))
                if coin(rng, f["zshunt"]):
                    kw["b"] = R(rng, 0, 0.05, 0.01) / z
                    kw["g"] = R(rng, 0, 0.002, 0.001) / z
            n.add("Line", f"L{k}", bus0=i, bus1=j, **kw, **self.act())

    def oneports(self, areas, acb):
        n, rng, f = self.n, self.rng, self.f
        for a, (car, bs) in enumerate(areas):
            if not (len(bs) >= 1 and coin(rng, f["nogen"])):
                for k in range(int(rng.integers(1, 4))):
                    kw = dict(p_nom=R(rng, 0, 200, 10))
                    if coin(rng, 0.5):
                        kw["p_nom_opt"] = R(rng, 0, 200, 10)
                    if coin(rng, f["pv"]):
                        kw["control"] = pick(rng, ["PV", "PV", "Slack", "PQ"])
                        self.sig.append(kw["control"])
                    if coin(rng, 0.3 * f["signs"]):
                        kw["sign"] = -1.0
                        self.sig.append("gensign")
                    nm = f"g{a}{k}"
                    n.add("Generator", nm, bus=pick(rng, bs), **kw, **self.act())
                    if coin(rng, 0.85):
                        self.setp(n, "Generator", "p_set", nm, 0, 50)
                    if coin(rng, 0.5):
                        self.setp(n, "Generator", "q_set", nm, -10, 10)
            for k in range(int(rng.integers(0, 3))):
                nm = f"d{a}{k}"
                kw = {"sign": pick(rng, [1.0, -0.5])} if self.has("signs") else {}
                n.add("Load", nm, bus=pick(rng, bs), **kw, **self.act())
                self.setp(n, "Load", "p_set", nm, 0, 40)
                if coin(rng):
                    self.setp(n, "Load", "q_set", nm, -10, 15)
            if self.has("storage"):
                nm = f"su{a}"
                n.add("StorageUnit", nm, bus=pick(rng, bs), p_nom=20, **self.act())
                self.setp(n, "StorageUnit", "p_set", nm, -15, 15)
                if coin(rng):
                    self.setp(n, "StorageUnit", "q_set", nm, -5, 5)
            if self.has("store"):
                nm = f"st{a}"
                n.add("Store", nm, bus=pick(rng, bs), e_nom=20, **self.act())
                self.setp(n, "Store", "p_set", nm, -15, 15)
                if coin(rng):
                    self.setp(n, "Store", "q_set", nm, -5, 5)
            if car == "AC" and self.has("shunt"):
                for k in range(int(rng.integers(1, 3))):
                    b = pick(rng, bs)
                    v2 = n.buses.at[b, "v_nom"] ** 2
                    n.add("ShuntImpedance", f"sh{a}{k}", bus=b, g=R(rng, 0, 5, 0.5) / v2, b=R(rng, -10, 20, 1) / v2, **self.act())

    def links(self):
        n, rng, f = self.n, self.rng, self.f
        multi = self.has("multiport")
        if multi:
            pass
        for k in range(int(rng.integers(1, 4))):
            i, j = rng.choice(len(self.allb), 2, replace=False)
            kw = dict(bus0=self.allb[i], bus1=self.allb[j], efficiency=R(rng, 0.5, 1), p_nom=100)
            if multi:
                kw["bus2"] = pick(rng, self.allb) if coin(rng, 0.6) else ""
                kw["efficiency2"] = R(rng, -0.5, 0.5)
            n.add("Link", f"k{k}", **kw, **self.act())
            self.setp(n, "Link", "p_set", f"k{k}", -20, 30)
            if coin(rng, 0.4):
                n.links_t.efficiency[f"k{k}"] = [R(rng, 0.5, 1) for _ in n.snapshots]
            if multi and coin(rng, 0.4):
                if "efficiency2" not in n.links_t:
                    n.links_t["efficiency2"] = pd.DataFrame(index=n.snapshots)
                n.links_t.efficiency2[f"k{k}"] = [R(rng, -0.5, 0.5) for _ in n.snapshots]

    def signature(self):
        n = self.n
        return tuple(sorted(set(map(str, self.sig)))) + (len(n.snapshots), len(n.buses), len(n.lines), len(n.transformers))


# --------------------------------------------------------------------- independent electrical model
class Elec:
    """Electrical data recomputed from the raw inputs (before any power flow is run)."""

    def __init__(self, n):
        self.buses = list(n.buses.index)
        self.vnom = n.buses.v_nom.to_dict()
        self.carrier = n.buses.carrier.to_dict()
        self.br = {}
        for i, r in n.lines.iterrows():
            x, rr, b, g = float(r.x), float(r.r), float(r.b), float(r.g)
            if r.type != "":
                t = n.line_types.loc[r.type]
                x = t.x_per_length * r.length / r.num_parallel
                rr = t.r_per_length * r.length / r.num_parallel
                b = 2 * np.pi * t.f_nom * t.c_per_length * 1e-9 * r.length * r.num_parallel
            v2 = self.vnom[r.bus0] ** 2
            self.br["Line", i] = dict(b0=r.bus0, b1=r.bus1, active=bool(r.active), z=complex(rr / v2, x / v2), y=complex(g * v2, b * v2), tau=1.0, side=0, phi=0.0, xeff=x / v2, reff=rr / v2)
        for i, r in n.transformers.iterrows():
            x, rr, b, g, s, tau, side, phi = float(r.x), float(r.r), float(r.b), float(r.g), float(r.s_nom), float(r.tap_ratio), int(r.tap_side), float(r.phase_shift)
            if r.type != "":
                t = n.transformer_types.loc[r.type]
                s = float(t.s_nom)
                rr = t.vscr / 100
                x = np.sqrt((t.vsc / 100) ** 2 - rr**2)
                g = t.pfe / 1000 / s
                b = -np.sqrt(max((t.i0 / 100) ** 2 - g**2, 0))
                rr, x, g, b = rr / r.num_parallel, x / r.num_parallel, g * r.num_parallel, b * r.num_parallel
                tau = 1 + (r.tap_position - t.tap_neutral) * t.tap_step / 100
                side, phi = int(t.tap_side), float(t.phase_shift)
            z, y = complex(rr, x) / s, complex(g, b) * s
            d = dict(b0=r.bus0, b1=r.bus1, active=bool(r.active), tau=tau, side=side, phi=np.deg2rad(phi), xeff=x / s * tau, reff=rr / s * tau, t=r.model == "t" and y != 0)
            if d["t"]:
                # exact elimination of the middle node of the T circuit
                za = z / 2
                Y = np.array([[1 / za, 0, -1 / za], [0, 1 / za, -1 / za], [-1 / za, -1 / za, 2 / za + y]])
                K = Y[:2, :2] - np.outer(Y[:2, 2], Y[2, :2]) / Y[2, 2]
                d["z"] = -1 / K[0, 1]
                d["y"] = 2 * (K[0, 0] + K[0, 1])
                d["xeff"], d["reff"] = d["z"].imag * tau if False else x / s * tau, rr / s * tau
            else:
                d["z"], d["y"] = z, y
            self.br["Transformer", i] = d

    def two_port(self, k):
        """2x2 matrix: (I0, I1) = Y (V0, V1); ideal transformer tau*e^{j phi} at the tapped side."""
        d = self.br[k]
        ys, yh = 1 / d["z"], d["y"] / 2
        # pi section between the two inner terminals
        P = np.array([[ys + yh, -ys], [-ys, ys + yh]])
        # inner voltages: U0 = V0/tau0, U1 = V1/tau1 * e^{j phi}
        t0, t1 = (d["tau"], 1.0) if d["side"] == 0 else (1.0, d["tau"])
        M = np.diag([1 / t0, np.exp(1j * d["phi"]) / t1])
        return M.conj().T @ P @ M

    def components(self):
        """Connected components of the active lines/transformers: list of sorted bus lists."""
        par = {b: b for b in self.buses}

        def find(a):
            while par[a] != a:
                par[a] = par[par[a]]
                a = par[a]
            return a

        for d in self.br.values():
            if d["active"]:
                par[find(d["b0"])] = find(d["b1"])
        out = {}
        for b in self.buses:
            out.setdefault(find(b), []).append(b)
        return list(out.values())


def injections(n, which="p", shunts=False):
    """DataFrame (snapshots x buses) of set-point injections, from raw inputs; active items only."""
    from vlib.ref import val

    out = pd.DataFrame(0.0, index=n.snapshots, columns=n.buses.index)
    for c in ("Generator", "Load", "StorageUnit", "Store"):
        st = n.static(c)
        for i in st.index:
            if st.at[i, "active"]:
                for t in n.snapshots:
                    v = val(n, c, which + "_set", i, t)
                    out.at[t, st.at[i, "bus"]] += st.at[i, "sign"] * (0.0 if np.isnan(v) else v)
    if which == "p":
        for i in n.links.index:
            if not n.links.at[i, "active"]:
                continue
            for t in n.snapshots:
                p = val(n, "Link", "p_set", i, t)
                p = 0.0 if np.isnan(p) else p
                out.at[t, n.links.at[i, "bus0"]] -= p
                for col in n.links.columns:
                    if col.startswith("bus") and col != "bus0":
                        k = col[3:]
                        b = n.links.at[i, col]
                        if b != "":
                            out.at[t, b] += p * val(n, "Link", "efficiency" + ("" if k == "1" else k), i, t)
    return out
