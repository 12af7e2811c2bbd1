"""One simulated installation: kernel, hosts, Ceph, Consul, network."""

import filecmp
import json
import random

import yaml

from . import boot, shims
from .ext import Callback, Ceph, ConsulState
from .fs import SimFS
from .kernel import US, Host, Kernel, derive
from .loop import Net
from .procs import PROGRAMS, send_signal


class World:
    def __init__(self, plan, debug=False):
        boot.boot()
        self.plan = plan
        seed = plan["seed"]
        self.unit = plan.get("unit", 4096)
        boot.set_scale(self.unit)
        random.seed(seed)
        filecmp.clear_cache()
        self.k = k = Kernel(
            seed, plan.get("sched"), plan.get("faults"),
            epoch_us=plan.get("epoch", 1_700_000_000) * US, debug=debug,
        )
        k.max_steps = plan.get("max_steps", 3_000_000)
        shims.set_kernel(k)
        self.ceph = Ceph(k)
        k.services["ceph"] = self.ceph
        self.consul = ConsulState(k, self.ceph)
        k.services["consul"] = self.consul
        self.net = Net(k)
        k.services["net"] = self.net
        self.callback = Callback(k)
        k.services["callback"] = self.callback
        self.add_host("h0")

    def add_host(self, name):
        fs = SimFS(self.k, name)
        fs.dir_salt = self.plan.get("dir_salt", 0)
        h = Host(self.k, name, fs)
        self.k.hosts[name] = h
        self.net.names[name] = f"10.0.0.{len(self.k.hosts)}"
        fs.makedirs("/srv/backy")
        fs.makedirs("/tmp")
        fs.makedirs("/var/log")
        fs.sync_all()
        return h

    @property
    def h0(self):
        return self.k.hosts["h0"]

    def prog(self, name, argv, host=None, cwd="/", meta=None):
        base = argv[0].rsplit("/", 1)[-1]
        main = PROGRAMS[base]
        return self.k.spawn(name, host or self.h0, argv, main, cwd=cwd, meta=meta)

    def write_config(self, fs, path, source, schedule):
        fs.put(
            path + "/config",
            yaml.safe_dump({"path": path, "source": source, "schedule": schedule}).encode(),
        )
        fs.sync_all()

    def close(self):
        self.k.shutdown()
        shims.set_kernel(None)
