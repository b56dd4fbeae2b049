"""an arbitrary population: every quantity is arbitrary, as far as the constructor allows

The invariant of populations established by C05 is used: the known distances are those of the selected objects at the
positions given by their indices, and known and unknown positions together are all the selected objects.
"""


class Pop:
    def __init__(self, env, aux=("a", "b"), probability=True, lum_form=True, spaces=True, name="pop", full=False,
                 empty_known=False, graph=True):
        self.env = env
        P = env.mod("popsynth.population").Population
        nx = env.mod("popsynth.population").nx
        np = env.np
        self.n = n = env.size("n")
        self.q = {}
        for k in ("luminosities", "distances", "fluxes", "flux_obs", "theta", "phi"):
            self.q[k] = env.array(k, n, gt=0, lo=0.1, hi=3)
        if probability:
            self.q["probability"] = env.array("probability", n, gt=0, lo=0.1, hi=3)
        self.q["selection"] = np.ones(n, dtype=bool) if full else env.mask("selection", n)
        self.pos, self.count, self.rank = env.where(self.q["selection"])
        known = np.zeros(self.count, dtype=bool) if empty_known else env.mask("known", self.count)
        self.known = known
        idx = np.where(known)[0]
        nidx = np.where(~known)[0]
        kd = self.q["distances"][self.q["selection"]][idx]
        self.aux = {k: dict(true_values=env.array("true_" + k, n, lo=-3, hi=3), obs_values=env.array("obs_" + k, n, lo=-3, hi=3))
                    for k in aux} if aux is not None else None
        g = nx.DiGraph()
        if graph:
            g.add_edge("space", "obs_flux")
        self.meta = dict(flux_sigma=env.real("flux_sigma", ge=0, lo=0, hi=1), r_max=env.real("r_max", gt=0, lo=1, hi=5),
                         n_model=7, lf_params={"L0": env.real("L0", gt=0, lo=1, hi=5)} if lum_form else None,
                         spatial_params={"Lambda": env.real("Lambda", gt=0, lo=1, hi=5)},
                         model_spaces={"space_a": env.array("space_a", 7, lo=0, hi=1)} if spaces else None,
                         seed=env.int("seed", ge=0, lo=0, hi=99), name=name, spatial_form="rho",
                         lf_form="phi" if lum_form else None, truth={"space": {"Lambda": env.real("true_Lambda", lo=0, hi=2)}},
                         graph=g, pop_synth={"seed": 4})
        self.idx, self.nidx, self.kd = idx, nidx, kd
        self.pop = P(known_distances=kd, known_distance_idx=idx, unknown_distance_idx=nidx,
                     auxiliary_quantities=self.aux, **self.q, **self.meta)
