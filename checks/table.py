from . import arith, bits, rounding, inexact, lists, objects, chars, ports, seqs, machine, compiler, programs

# property -> (obligation generator, extra assumptions)
TABLE = {
    'A01': dict(obs=arith.a01),
    'A02': dict(obs=arith.a02),
    'A03': dict(obs=arith.a03),
    'A04': dict(obs=bits.a04),
    'A05': dict(obs=rounding.a05, lemmas=['half_denominator']),
    'B01': dict(obs=objects.b01),
    'B02': dict(obs=objects.b02),
    'B03': dict(obs=lists.obs),
    'B04': dict(obs=lambda tier: chars.b04() + ports.texts() + ports.u8text()),
    'B05': dict(obs=seqs.b05),
    'B06': dict(obs=seqs.b06),
    'B07': dict(obs=ports.b07),
    'C01': dict(obs=lambda tier: programs.attach(machine.obs(tier), 'C01')),
    'C02': dict(obs=lambda tier: programs.attach(compiler.obs(tier), 'C02')),
    'A06': dict(obs=inexact.a06),
}
