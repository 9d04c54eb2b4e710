"""Synthetic Level-1A products.

Everything the processor reads is written here, from numpy only: nothing of the
code under test is used, so a defect in it cannot hide in its own input.

A product is a list of record descriptions (`Rec`).  The orbit position of a record is a pure
function of its *slot* number, so leaving slots out makes a data gap.
"""
import json
import math
import os

import netCDF4 as nc
import numpy as np

PULSES = 8
SAMPLES = 16
BRF = 24.0
PRF = 17825.311 * PULSES / 64.0
BRI = 1.0 / BRF
LTM = 3

A = 6378137.0
F = 0.00335281067183084
E2 = F * (2 - F)
C = 299792458.0
ALT = 814500.0

# name -> (dtype, scale, offset)   all along the time dimension
_SCALARS = {
    'time_l1a_echo_sar_ku': ('f8', None, None),
    'UTC_day_l1a_echo_sar_ku': ('i2', None, None),
    'UTC_sec_l1a_echo_sar_ku': ('f8', None, None),
    'UTC_time_20hz_l1a_echo_sar_ku': ('f8', None, None),
    'isp_coarse_time_l1a_echo_sar_ku': ('u4', None, None),
    'isp_fine_time_l1a_echo_sar_ku': ('i4', None, None),
    'flag_time_status_l1a_echo_sar_ku': ('i1', None, None),
    'sral_fine_time_l1a_echo_sar_ku': ('u4', None, None),
    'lat_l1a_echo_sar_ku': ('i4', 1e-6, 0.0),
    'lon_l1a_echo_sar_ku': ('i4', 1e-6, 0.0),
    'surf_type_l1a_echo_sar_ku': ('i1', None, None),
    'burst_count_prod_l1a_echo_sar_ku': ('i4', None, None),
    'seq_count_l1a_echo_sar_ku': ('u2', None, None),
    'burst_count_cycle_l1a_echo_sar_ku': ('i1', None, None),
    'nav_bul_status_l1a_echo_sar_ku': ('i1', None, None),
    'nav_bul_source_l1a_echo_sar_ku': ('i1', None, None),
    'oper_instr_l1a_echo_sar_ku': ('i1', None, None),
    'SAR_mode_l1a_echo_sar_ku': ('i1', None, None),
    'cl_gain_l1a_echo_sar_ku': ('i1', None, None),
    'acq_stat_l1a_echo_sar_ku': ('i1', None, None),
    'dem_eeprom_l1a_echo_sar_ku': ('i1', None, None),
    'weighting_l1a_echo_sar_ku': ('i1', None, None),
    'loss_track_l1a_echo_sar_ku': ('i1', None, None),
    'h0_nav_dem_l1a_echo_sar_ku': ('u4', None, None),
    'h0_applied_l1a_echo_sar_ku': ('u4', None, None),
    'cor2_nav_dem_l1a_echo_sar_ku': ('i2', None, None),
    'cor2_applied_l1a_echo_sar_ku': ('i2', None, None),
    'dh0_l1a_echo_sar_ku': ('i4', None, None),
    'agccode_ku_l1a_echo_sar_ku': ('i1', None, None),
    'agccode_c_l1a_echo_sar_ku': ('i1', None, None),
    'alt_l1a_echo_sar_ku': ('i4', 1e-4, 700000.0),
    'orb_alt_rate_l1a_echo_sar_ku': ('i2', 0.01, 0.0),
    'x_pos_l1a_echo_sar_ku': ('f8', None, None),
    'y_pos_l1a_echo_sar_ku': ('f8', None, None),
    'z_pos_l1a_echo_sar_ku': ('f8', None, None),
    'x_vel_l1a_echo_sar_ku': ('f8', None, None),
    'y_vel_l1a_echo_sar_ku': ('f8', None, None),
    'z_vel_l1a_echo_sar_ku': ('f8', None, None),
    'roll_sat_pointing_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'pitch_sat_pointing_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'yaw_sat_pointing_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'roll_sral_mispointing_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'pitch_sral_mispointing_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'yaw_sral_mispointing_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'range_ku_l1a_echo_sar_ku': ('i4', 1e-4, 700000.0),
    'int_path_cor_ku_l1a_echo_sar_ku': ('i4', 1e-4, 0.0),
    'uso_cor_l1a_echo_sar_ku': ('i4', 1e-4, 0.0),
    'cog_cor_l1a_echo_sar_ku': ('i2', 1e-4, 0.0),
    'agc_ku_l1a_echo_sar_ku': ('i4', 0.01, 0.0),
    'scale_factor_ku_l1a_echo_sar_ku': ('i4', 0.01, 0.0),
    'sig0_cal_ku_l1a_echo_sar_ku': ('i4', 0.01, 0.0),
    'cal2_ku_ind_l1a_echo_sar_ku': ('i1', None, None),
    'cal1_ku_ind_l1a_echo_sar_ku': ('i1', None, None),
}

GLOBALS = ['mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name',
           'references', 'acq_station_name', 'xref_altimeter_level0', 'xref_navatt_level0',
           'xref_altimeter_orbit', 'xref_doris_uso', 'xref_altimeter_ltm_lrm_cal1',
           'xref_altimeter_ltm_sar_cal1', 'xref_altimeter_ltm_ku_cal2', 'xref_altimeter_ltm_c_cal2',
           'xref_altimeter_characterisation', 'xref_time_correlation', 'xref_platform', 'history']


def lla2ecef(lat, lon, alt):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return np.array([(n + alt) * math.cos(lat) * math.cos(lon),
                     (n + alt) * math.cos(lat) * math.sin(lon),
                     (n * (1 - E2) + alt) * math.sin(lat)])


def orbit(slot, lat0=0.7, lon0=0.3):
    """(lat, lon, alt) in radians/metres and velocity, for a slot number (may be fractional)"""
    t = slot * BRI

    def lla(tt):
        # alt varies gently so that window delays are not all alike
        return (lat0 + 0.001052 * tt, lon0 - 0.00021 * tt, ALT + 0.8 * tt + 0.3 * math.sin(2.1 * tt))
    p = lla(t)
    h = 1e-3
    v = (lla2ecef(*lla(t + h)) - lla2ecef(*lla(t - h))) / (2 * h)
    # inertial-ish speed: scale to a realistic satellite velocity
    v = v * (7450.0 / np.linalg.norm(v))
    return p, v


def state(slot, zero=None):
    """position of the satellite, in degrees, metres and Cartesian coordinates"""
    (lat, lon, alt), _ = orbit(slot)
    if zero:
        (zlat, zlon, _), _ = orbit(zero[1])
        if zero[0] == 'lat':
            lat -= zlat
        else:
            lon -= zlon
    x, y, z = lla2ecef(lat, lon, alt)
    return {'lat': math.degrees(lat), 'lon': math.degrees(lon), 'alt': alt, 'x': x, 'y': y, 'z': z}


class Rec:
    """one Level-1A record: a slot on the orbit, and whether it carries no position (invalid)"""
    __slots__ = ('slot', 'invalid', 'noise', 'cal')

    def __init__(self, slot, invalid=False, noise=0, cal=0):
        self.slot = slot
        self.invalid = invalid
        self.noise = noise
        self.cal = cal


def spin(v, a):
    c, s = math.cos(a), math.sin(a)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]])


def lat_lon_deg(slot):
    (lat, lon, _), _ = orbit(slot)
    return round(math.degrees(lat), 6), round(math.degrees(lon), 6)


T0 = 5.1e8


def time_of(slot):
    return T0 + slot * BRI


def write_l1a(path, recs, salt=0, zero=None, product='S3A_SR_1_SRA_A__20160101T000000_SIM', t0=T0, attrs=None):
    n = len(recs)
    d = nc.Dataset(path, 'w', format='NETCDF4')
    try:
        d.createDimension('echo_sample_ind', SAMPLES)
        d.createDimension('sar_ku_pulse_burst_ind', PULSES)
        d.createDimension('sar_c_pulse_burst_ind', 2)
        d.createDimension('ltm_max_ind', LTM)
        d.createDimension('time_l1a_echo_sar_ku', n)
        d.createDimension('time_l1a_echo_plrm', 1)
        for nm, size in (('echo_sample_ind', SAMPLES), ('sar_ku_pulse_burst_ind', PULSES),
                         ('sar_c_pulse_burst_ind', 2), ('ltm_max_ind', LTM)):
            v = d.createVariable(nm, 'i1', (nm,))
            v[:] = np.arange(size)
        col = {k: np.zeros(n) for k in _SCALARS}
        i3 = np.zeros((n, PULSES, SAMPLES), dtype='i2')
        q3 = np.zeros((n, PULSES, SAMPLES), dtype='i2')
        gp = np.zeros((n, LTM, SAMPLES))
        pw = np.zeros((n, PULSES))
        ph = np.zeros((n, PULSES))
        for k, r in enumerate(recs):
            (lat, lon, alt), vel = orbit(r.slot)
            if zero:
                # shift the track so that it crosses the equator or the prime meridian at a record
                (zlat, zlon, _), _ = orbit(zero[1])
                if zero[0] == 'lat':
                    lat -= zlat
                    vel = orbit(r.slot, lat0=0.7 - zlat)[1]
                else:
                    lon -= zlon
                    vel = spin(vel, -zlon)
            pos = lla2ecef(lat, lon, alt)
            rs = np.random.RandomState((r.slot * 7919 + r.noise * 104729 + salt * 1299709) & 0x7fffffff)
            c = {}
            t = t0 + r.slot * BRI
            c['time_l1a_echo_sar_ku'] = t
            c['UTC_day_l1a_echo_sar_ku'] = int(t // 86400)
            c['UTC_sec_l1a_echo_sar_ku'] = t % 86400
            c['UTC_time_20hz_l1a_echo_sar_ku'] = t
            c['isp_coarse_time_l1a_echo_sar_ku'] = int(t) % 1000000
            c['isp_fine_time_l1a_echo_sar_ku'] = int((t % 1) * 1e6)
            c['flag_time_status_l1a_echo_sar_ku'] = r.slot % 2
            c['sral_fine_time_l1a_echo_sar_ku'] = int((t % 1) * 1e6) + 7
            c['lat_l1a_echo_sar_ku'] = 0.0 if r.invalid else math.degrees(lat)
            c['lon_l1a_echo_sar_ku'] = 0.0 if r.invalid else math.degrees(lon)
            c['surf_type_l1a_echo_sar_ku'] = rs.randint(0, 4)
            c['burst_count_prod_l1a_echo_sar_ku'] = r.slot + 1
            c['seq_count_l1a_echo_sar_ku'] = (r.slot * 3) % 16384
            c['burst_count_cycle_l1a_echo_sar_ku'] = r.slot % 4
            for nm, hi in (('nav_bul_status', 2), ('nav_bul_source', 2), ('oper_instr', 2), ('SAR_mode', 3),
                           ('cl_gain', 2), ('acq_stat', 3), ('dem_eeprom', 2), ('weighting', 2),
                           ('loss_track', 2)):
                c[nm + '_l1a_echo_sar_ku'] = rs.randint(0, hi)
            c['h0_nav_dem_l1a_echo_sar_ku'] = 1000 + r.slot
            c['h0_applied_l1a_echo_sar_ku'] = 2000 + r.slot
            c['cor2_nav_dem_l1a_echo_sar_ku'] = rs.randint(-50, 50)
            c['cor2_applied_l1a_echo_sar_ku'] = rs.randint(-50, 50)
            c['dh0_l1a_echo_sar_ku'] = rs.randint(-9, 9)
            c['agccode_ku_l1a_echo_sar_ku'] = rs.randint(0, 60)
            c['alt_l1a_echo_sar_ku'] = alt
            c['orb_alt_rate_l1a_echo_sar_ku'] = 0.8
            c['x_pos_l1a_echo_sar_ku'], c['y_pos_l1a_echo_sar_ku'], c['z_pos_l1a_echo_sar_ku'] = pos
            c['x_vel_l1a_echo_sar_ku'], c['y_vel_l1a_echo_sar_ku'], c['z_vel_l1a_echo_sar_ku'] = vel
            c['pitch_sat_pointing_l1a_echo_sar_ku'] = 0.01
            c['roll_sral_mispointing_l1a_echo_sar_ku'] = 0.002
            c['pitch_sral_mispointing_l1a_echo_sar_ku'] = 0.003
            c['yaw_sral_mispointing_l1a_echo_sar_ku'] = 0.001
            c['range_ku_l1a_echo_sar_ku'] = alt - 30.0 + rs.uniform(-0.2, 0.2)
            c['cog_cor_l1a_echo_sar_ku'] = 0.5
            c['uso_cor_l1a_echo_sar_ku'] = 0.01
            c['int_path_cor_ku_l1a_echo_sar_ku'] = 0.02
            c['agc_ku_l1a_echo_sar_ku'] = 33.0 + rs.randint(0, 5)
            c['scale_factor_ku_l1a_echo_sar_ku'] = 1.0
            c['sig0_cal_ku_l1a_echo_sar_ku'] = 30.0 + rs.randint(0, 3)
            for nm, x in c.items():
                col[nm][k] = x
            i3[k] = rs.randint(-120, 121, size=(PULSES, SAMPLES))
            q3[k] = rs.randint(-120, 121, size=(PULSES, SAMPLES))
            gp[k] = rs.uniform(0.5, 1.5, size=(LTM, SAMPLES))
            pw[k] = rs.uniform(0.5, 1.5, size=PULSES)
            ph[k] = rs.uniform(-0.5, 0.5, size=PULSES)
        for nm, (dt, sc, off) in _SCALARS.items():
            v = d.createVariable(nm, dt, ('time_l1a_echo_sar_ku',))
            if sc is not None:
                v.scale_factor = sc
                v.add_offset = off
            v[:] = col[nm]
        t3 = ('time_l1a_echo_sar_ku', 'sar_ku_pulse_burst_ind', 'echo_sample_ind')
        d.createVariable('i_meas_ku_l1a_echo_sar_ku', 'i2', t3)[:] = i3
        d.createVariable('q_meas_ku_l1a_echo_sar_ku', 'i2', t3)[:] = q3
        v = d.createVariable('gprw_meas_ku_l1a_echo_sar_ku', 'u4',
                             ('time_l1a_echo_sar_ku', 'ltm_max_ind', 'echo_sample_ind'))
        v.scale_factor, v.add_offset = 1e-4, 0.0
        v[:] = gp
        v = d.createVariable('burst_power_cor_ku_l1a_echo_sar_ku', 'u4', t3[:2])
        v.scale_factor, v.add_offset = 1e-4, 0.0
        v[:] = pw
        v = d.createVariable('burst_phase_cor_ku_l1a_echo_sar_ku', 'i4', t3[:2])
        v.scale_factor, v.add_offset = 1e-4, 0.0
        v[:] = ph
        for g in GLOBALS if attrs is None else attrs:
            if '=' in g:                # name=value
                d.setncattr(*g.split('=', 1))
            else:
                setattr(d, g, 'sim %s %d' % (g, salt))
        if attrs is None or 'product_name' in attrs:
            d.product_name = product
    finally:
        d.close()


#: an antenna pattern, for antenna weighting
ANTENNA = {'antenna_angles_chd': [-0.005 + 0.01 * k / 249 for k in range(250)], 'antenna_angles_spacing_chd': 0.01 / 249,
           'antenna_weights_chd': [math.exp(-((k - 124.5) / 90.0) ** 2) for k in range(250)]}
_PKG = None


def default_json(key):
    with open(os.path.join('/repo/dedop/ui/data/config', key + '.json')) as fp:
        return json.load(fp)


def write_aux(dirname, cnf=None, looks=6, chd=None):
    """small CHD/CNF/CST files for the synthetic instrument"""
    os.makedirs(dirname, exist_ok=True)
    chd_d = default_json('CHD')
    chd_d['N_samples_sar_chd']['value'] = SAMPLES
    chd_d['N_ku_pulses_burst_chd']['value'] = PULSES
    chd_d['prf_sar_chd']['value'] = PRF
    chd_d['brf_sar_chd']['value'] = BRF
    for k, v in (chd or {}).items():
        chd_d.setdefault(k, {'value': None})['value'] = v
    cnf_d = default_json('CNF')
    cnf_d['N_looks_stack_cnf']['value'] = looks
    cnf_d['azimuth_window_width_cnf']['value'] = PULSES
    for k, v in (cnf or {}).items():
        if v is None:
            cnf_d.pop(k, None)
        else:
            cnf_d.setdefault(k, {})['value'] = v
    out = {}
    for key, dd in (('CHD', chd_d), ('CNF', cnf_d), ('CST', default_json('CST'))):
        p = os.path.join(dirname, key + '.json')
        with open(p, 'w') as fp:
            json.dump(dd, fp, indent=1)
        out[key] = p
    return out
