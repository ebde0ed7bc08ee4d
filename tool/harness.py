"""Test benches around the real classes: they only connect, they hold no behaviour of their own."""
from nmigen import Elaboratable, Module, Signal


class FrameReset(Elaboratable):
    """a configuration block as it sits in an encoder: the encoder's clock domain resets between frames, whenever"""

    def __init__(self, dut):
        for k, v in vars(dut).items():
            if not k.startswith("_"):
                setattr(self, k, v)
        self._dut = dut
        self.frame_reset = Signal(1)

    def elaborate(self, platform):
        import clk_domains
        m = Module()
        m.submodules.dut = self._dut
        clk_domains.load_clk(m)
        m.d.comb += clk_domains.CORE.rst.eq(self.frame_reset)
        return m


def sized(module, expr):
    """a whole encoder whose fixed frame size and cycle limit are inputs, so that short frames can be run"""
    import importlib, register_file, constraints
    H, W, L = Signal(16, name="frame_height"), Signal(16, name="frame_width"), Signal(24, name="frame_cycles")

    class RegisterFile(Elaboratable):
        def __init__(self):
            self.height, self.width, self.allowed_cycles = Signal(16), Signal(16), Signal(24)
            self.ios = [self.height, self.width, self.allowed_cycles]

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.height.eq(H), self.width.eq(W), self.allowed_cycles.eq(L)]
            return m
    register_file.RegisterFile = RegisterFile
    m = importlib.import_module(module)
    for k, v in vars(m).items():
        if isinstance(v, type) and v.__name__ == "RegisterFile":
            setattr(m, k, RegisterFile)
    top = eval(expr, dict(vars(m), constraints=constraints))

    class Sized(Elaboratable):
        def __init__(self):
            self.top_, self.frame_height, self.frame_width, self.frame_cycles = top, H, W, L
            for k, v in vars(top).items():
                if k not in ("config", "ios", "top_"):
                    setattr(self, k, v)
            x = [top]
            while x:
                o = x.pop()
                for k, v in list(vars(o).items()):
                    if k == "core_axi_lite":
                        self.s_axi_wi, self.s_axi_wo, self.s_axi_ri = v.s_axi_wi, v.s_axi_wo, v.s_axi_ri
                    if isinstance(v, Elaboratable) and not isinstance(v, Module):
                        x.append(v)

        def elaborate(self, platform):
            m = Module()
            m.submodules.whole = top
            return m
    return Sized()
