"""What each check runs."""


def mc(mod, cfg=None, **kw):
  return dict(mod=mod + '.tla', cfg=(cfg or mod) + '.cfg', **kw)


CHECKS = {
    'C01': dict(
        gen=dict(quick=[dict(mod='MC_C01.tla', cfg='Gen_C01.cfg', out='gen.ndjson', sim=True,
                             extra=['-simulate', 'num=300', '-seed', '@SEED@', '-depth', '4'])],
                 thorough=[dict(mod='MC_C01.tla', cfg='Gen_C01.cfg', out='gen.ndjson', sim=True,
                                extra=['-simulate', 'num=4000', '-seed', '@SEED@', '-depth', '5'])]),
        mc=dict(quick=[mc('MC_C01', workers=4)], thorough=[mc('MC_C01', 'MC_C01_deep', workers=8)])),
    'C02': dict(
        gen=dict(quick=[dict(mod='MC_C02.tla', cfg='Gen_C02.cfg', out='gen.ndjson')]),
        mc=dict(quick=[mc('MC_C02'), mc('MC_C02', 'MC_C02_2d')])),
}
CHECKS['C03'] = dict(mc=dict(quick=[mc('MC_C03')], thorough=[mc('MC_C03', 'MC_C03_4', workers=8)]))
CHECKS['C05'] = dict(mc=dict(quick=[mc('MC_C05', 'MC_C05_p'), mc('MC_C05', 'MC_C05_w')], thorough=[mc('MC_C05', 'MC_C05_p4'), mc('MC_C05', 'MC_C05_w')]))
CHECKS['C04'] = dict(mc=dict(quick=[mc('MC_C04', 'MC_C04_2d')], thorough=[mc('MC_C04', 'MC_C04_2d'), mc('MC_C04', 'MC_C04_3d', workers=8)]))
CHECKS['C06'] = dict(mc=dict(quick=[mc('MC_C06', 'MC_C06_1d'), mc('MC_C06', 'MC_C06_1w'), mc('MC_C06', 'MC_C06_2d')],
    thorough=[mc('MC_C06', 'MC_C06_1d4'), mc('MC_C06', 'MC_C06_1w'), mc('MC_C06', 'MC_C06_2w')]))
CHECKS['C07'] = dict(mc=dict(quick=[mc('MC_C07', 'MC_C07_1d'), mc('MC_C07', 'MC_C07_2d')],
    thorough=[mc('MC_C07', 'MC_C07_1d'), mc('MC_C07', 'MC_C07_2d'), mc('MC_C07', 'MC_C07_2r')]))
CHECKS['C08'] = dict(mc=dict(quick=[mc('MC_C08', 'MC_C08_1d'), mc('MC_C08', 'MC_C08_2d')],
    thorough=[mc('MC_C08', 'MC_C08_1d'), mc('MC_C08', 'MC_C08_2d'), mc('MC_C08', 'MC_C08_2r')]))
CHECKS['C09'] = dict(mc=dict(quick=[mc('MC_C09', 'MC_C09_a'), mc('MC_C09', 'MC_C09_b')],
    thorough=[mc('MC_C09', 'MC_C09_b'), mc('MC_C09', 'MC_C09_c')]))
CHECKS['C10'] = dict(mc=dict(quick=[mc('MC_C10')]))
CHECKS['C11'] = dict(mc=dict(quick=[mc('MC_C11')]))
CHECKS['C12'] = dict(mc=dict(quick=[mc('MC_C12')]))
CHECKS['C13'] = dict(mc=dict(quick=[mc('MC_C13', 'MC_C13_a'), mc('MC_C13', 'MC_C13_b')]))
CHECKS['C15'] = dict(mc=dict(quick=[mc('MC_C15')]))
CHECKS['C14'] = dict(mc=dict(quick=[mc('MC_C14', 'MC_C14_66')], thorough=[mc('MC_C14', 'MC_C14_663'), mc('MC_C14', 'MC_C14_78')]))
CHECKS['C16'] = dict(mc=dict(quick=[mc('MC_C16', 'MC_C16'), mc('MC_C16', 'MC_C16_3d')],
    thorough=[mc('MC_C16', 'MC_C16'), mc('MC_C16', 'MC_C16_3d'), mc('MC_C16', 'MC_C16_44')]))
CHECKS['C17'] = dict(mc=dict(quick=[mc('MC_C17', 'MC_C17'), mc('MC_C17', 'MC_C17_2')],
    thorough=[mc('MC_C17', 'MC_C17'), mc('MC_C17', 'MC_C17_2'), mc('MC_C17', 'MC_C17_4')]))
CHECKS['C18'] = dict(
    gen=dict(quick=[dict(mod='MC_C18.tla', cfg='Gen_C18.cfg', out='gen.ndjson', sim=True,
                         extra=['-simulate', 'num=400', '-seed', '@SEED@', '-depth', '8'])],
             thorough=[dict(mod='MC_C18.tla', cfg='Gen_C18.cfg', out='gen.ndjson', sim=True,
                            extra=['-simulate', 'num=4000', '-seed', '@SEED@', '-depth', '8'])]),
    mc=dict(quick=[mc('MC_C18')], thorough=[mc('MC_C18', 'MC_C18_deep', workers=8)]))
CHECKS['C19'] = dict(mc=dict(quick=[mc('MC_C19', 'MC_C19_35'), mc('MC_C19', 'MC_C19_3d')],
    thorough=[mc('MC_C19', 'MC_C19_deep', workers=8), mc('MC_C19', 'MC_C19_35_deep', workers=8), mc('MC_C19', 'MC_C19_3d')]))
CHECKS['C20'] = dict(mc=dict(quick=[mc('MC_C20', 'MC_C20_1d'), mc('MC_C20', 'MC_C20_2d')],
    thorough=[mc('MC_C20', 'MC_C20_1d'), mc('MC_C20', 'MC_C20_2d'), mc('MC_C20', 'MC_C20_33', workers=8)]))
CHECKS['C21'] = dict(mc=dict(quick=[mc('MC_C21', 'MC_C21_32')], thorough=[mc('MC_C21', 'MC_C21_32'), mc('MC_C21', 'MC_C21_33', workers=8)]))
CHECKS['C22'] = dict(mc=dict(quick=[mc('MC_C22', 'MC_C22_32')], thorough=[mc('MC_C22', 'MC_C22_32long', workers=8), mc('MC_C22', 'MC_C22_43', workers=8)]))
CHECKS['C23'] = dict(mc=dict(quick=[mc('MC_C23', 'MC_C23_1d'), mc('MC_C23', 'MC_C23_2d')],
    thorough=[mc('MC_C23', 'MC_C23_1d'), mc('MC_C23', 'MC_C23_2dlong', workers=8), mc('MC_C23', 'MC_C23_32', workers=8)]))
CHECKS['C24'] = dict(mc=dict(quick=[mc('MC_C24', 'MC_C24_4'), mc('MC_C24', 'MC_C24_all')],
    thorough=[mc('MC_C24', 'MC_C24_6'), mc('MC_C24', 'MC_C24_7', workers=8), mc('MC_C24', 'MC_C24_all')]))
