"""C17: readers of vendor formats return the stored samples with the right labels."""
from __future__ import annotations

import hashlib
import struct
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib.cmp import Snap, check_coherent, check_same_snap, check_units, check_values, fail, require
from vlib.core import facet
from vlib.gen import I, S

RULE = ("A case is a well-formed file of one of the formats (H5Simple, Terra15, ProdML, Sintela binary, OptoDAS, Silixa HDF5, AP Sensing, DAS-HDF5, GDR, Neubrex RFS and DAS, TDMS, XML binary, Febus, DASVader, SR-4731, SEGY and the Febus strain, temperature and CSV "
        "files), written by an independent writer in this file with generated sizes, types, header values, layouts and time stamps, and up to five queries by range. Non-trivial = more than one sample, or a query "
        "which keeps a part of them.")
ASSUMPTIONS = [
    "Time stamps which a format stores as floating seconds are compared to the resolution of the float; distances to a few ulp.",
    "Readers that by default make time evenly sampled (Terra15, H5Simple, GDR, Neubrex) keep the first and last stamps, and stamps in between only to within the jitter.",
    "Sentek and sintela_protobuf/Febus G1 CSV partial reads are not exercised; all segments of a TDMS file repeat the first description.",
    "A field the format declares and the reader exposes (gauge length, units, serial number, ...) has the declared value; fields the reader documents as dropped are not demanded.",
]

T0 = ["2017-09-18T01:00:00", "2023-05-12T12:30:45.123456", "1999-12-31T23:59:59.998", "1970-01-02T00:00:05", "2024-02-29T23:59:59.5"]
DT_US = [100, 250, 500, 1000, 2000, 4000, 10_000, 100_000, 1_000_000, 5_000_000]


def quiet(func):
    def check(spec, ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            func(spec, ctx)

    check.__doc__ = func.__doc__
    check.__name__ = func.__name__
    return check


class Exp:
    """What a file holds."""

    def __init__(self, data, dims, coords, attrs=None, units=None, tol=0, dist_tol=0.0):
        self.data, self.dims, self.coords, self.attrs, self.units, self.tol, self.dist_tol = np.asarray(data), tuple(dims), coords, attrs or {}, units or {}, tol, dist_tol


def samples(spec, shape, dtype):
    n = int(np.prod(shape))
    vals = (np.arange(n) * 7 + spec["seed"]) % 1009 - 300
    if np.dtype(dtype).kind == "f":
        vals = vals * 0.25
    return vals.astype(dtype).reshape(shape)


def base(spec):
    """Time stamps (ns), their step, distances."""
    nt, nd = spec["nt"], spec["nd"]
    t0 = np.datetime64(spec["t0"], "ns")
    dt = np.timedelta64(spec["dt"] * 1000, "ns")
    return nt, nd, t0 + dt * np.arange(nt), dt, spec["dt"] / 1e6, spec["d0"] + spec["dx"] * np.arange(nd)


def secs(t):
    return t.astype("int64") / 1e9


def h5(path):
    import h5py

    return h5py.File(path, "w")


# --- writers: each returns (path, name, version, [Exp], read options)


def w_h5simple(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    other = ("distance", "channels", None)[spec["k"] % 3]
    explicit = f[0] or nt == nd
    if explicit and other != "distance":
        other = "distance"
    dims = ("distance", "time") if f[1] else ("time", "distance")
    shape = tuple({"time": nt, "distance": nd}[d] for d in dims)
    data = samples(spec, shape, spec["dtype"])
    path = tmp / "simple.h5"
    chan = np.arange(3, 3 + nd)
    with h5(path) as fi:
        fi["data" if f[2] else "raw"] = data
        fi[("timestamps", "timestamp", "time")[spec["k"] % 3]] = secs(t)
        if other == "distance":
            fi["distance"] = dist
        elif other == "channels":
            fi["channels"] = chan
        if explicit:
            fi.attrs["dims"] = ",".join(dims)
        fi.attrs["tag"] = "simple"
        fi.attrs["station"] = "ABC"
    names = {None: "channel"}.get(other, other)
    coords = {"time": t, names: {"distance": dist, "channels": chan, "channel": np.arange(nd)}[names]}
    return path, "H5Simple", "1", [Exp(data, [names if d == "distance" else d for d in dims], coords, {"tag": "simple", "station": "ABC"}, tol=500)], {}


def w_terra15(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    version = ("4", "5", "6")[spec["k"] % 3]
    pad = 2 if f[0] and nt > 1 else 0  # a block which was not completed
    data = samples(spec, (nt + pad, nd), "f4")
    path = tmp / "terra.hdf5"
    stamps = np.concatenate([secs(t), np.zeros(pad)])
    with h5(path) as fi:
        group = fi.create_group("velocity" if version == "4" else "data_product")
        group["data"] = data
        group["gps_time" if f[1] else "posix_time"] = stamps
        if f[1] and f[2]:
            group["posix_time"] = stamps + 100
        fi.attrs.update({"acoustic_bandwidth_end": 100.0, "amplifier_incoming_current": 1.0, "file_start_computer_time": float(secs(t)[0]), "file_version": int(version) if f[3] else version,
                         "sensing_range_start": float(dist[0]), "dx": float(spec["dx"]), "nx": nd, "pulse_rate": 1000.0, "pulse_length": 4.5, "gauge_length": 9.5, "data_product": "velocity",
                         "serial_number": "SN12", "data_product_units": "m/s"})
    return path, "TERRA15", version, [Exp(data[:nt], ("time", "distance"), {"time": t, "distance": dist}, {"data_type": "velocity", "instrument_id": "SN12", "data_units": "m/s", "gauge_length": 9.5, "pulse_rate": 1000.0},
                                          {"time": "s", "distance": "m", "data": "m/s"}, tol=500 + nt)], {}


def iso(t):
    return str(np.datetime64(t, "us")) + "+00:00"


def w_prodml(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    f = spec["f"]
    version = "2.1" if f[0] else "2.0"
    dims = ("locus", "time") if f[1] else ("time", "locus")
    start = (0, 3, 10)[spec["k"] % 3]
    dist = start * spec["dx"] + spec["dx"] * np.arange(nd)
    path = tmp / "prod.h5"
    exps = []
    out_dims = tuple({"locus": "distance"}.get(d, d) for d in dims)
    with h5(path) as fi:
        acq = fi.create_group("Acquisition")
        acq.attrs.update({"PulseRate": 1000.0, "PulseWidth": 20.0, "NumberOfLoci": nd, "schemaVersion": np.bytes_(version) if f[2] else float(version), "uuid": "0-1", "SpatialSamplingInterval": spec["dx"],
                          "StartLocusIndex": start, "GaugeLength": 7.5})
        acq.attrs["SpatialSamplingIntervalUnit" if f[0] else "SpatialSamplingInterval.uom"] = np.bytes_("m")
        acq.attrs["GaugeLengthUnit"] = "m"
        for i in range(1 + f[3]):
            raw = acq.create_group(f"Raw[{i}]")
            shape = tuple({"time": nt, "locus": nd}[d] for d in dims)
            data = samples(spec, shape, spec["dtype"]) + np.dtype(spec["dtype"]).type(i)
            t_i = t + np.timedelta64(i, "h")
            raw["RawData"] = data
            raw["RawData"].attrs["Dimensions"] = ", ".join(dims) if f[4] else np.array([x.encode() for x in dims])
            raw["RawDataTime"] = t_i.astype("datetime64[us]").astype("int64")
            wrong_end = f[5] and nt > 1
            raw["RawDataTime"].attrs.update({"PartStartTime": np.bytes_(iso(t_i[0])), "PartEndTime": iso(t_i[-1] + (dt if wrong_end else 0 * dt))})
            raw.attrs.update({"RawDescription": "strain rate", "RawDataUnit": "m"})
            exps.append(Exp(data, out_dims, {"time": t_i, "distance": dist}, {"data_units": "m", "gauge_length": 7.5, "pulse_width": 20.0, "data_type": "strain_rate"},
                            {"time": "s", "distance": "m", "data": "m"}, tol=1000 if wrong_end else 10))
        if spec["k"] % 2:
            fbe = acq.create_group("Processed").create_group("Fbe[0]")
            skip = 1 if nd > 2 else 0
            fbe.attrs.update({"NumberOfLoci": np.bytes_(str(nd - skip)) if f[2] else nd - skip, "StartLocusIndex": skip, "Dimensions": "time, locus", "WindowSize": 4, "TransformType": "FFT"})
            t_f = t + np.timedelta64(5, "h")
            fbe["FbeDataTime"] = t_f.astype("datetime64[us]").astype("int64")
            fbe["FbeDataTime"].attrs.update({"PartStartTime": iso(t_f[0]), "PartEndTime": iso(t_f[-1])})
            for band in range(2):
                data = samples(spec, (nt, nd - skip), "f4") + band
                fbe[f"FbeData[{band}]"] = data
                fbe[f"FbeData[{band}]"].attrs.update({"StartFrequency": 1.0 + band, "EndFrequency": 5.0 + band, "FbeDataUnit": "m/s"})
                exps.append(Exp(data, ("time", "distance"), {"time": t_f, "distance": dist[skip:]}, {"start_frequency": 1.0 + band, "end_frequency": 5.0 + band, "window_size": 4, "transform_type": "FFT", "data_units": "m/s"},
                                {"time": "s", "distance": "m", "data": "m/s"}, tol=10))
    return path, "PRODML", version, exps, {}


def w_sintela(spec, tmp):
    from dascore.io.sintela_binary.utils import _DATA_TYPE_MAP

    nt, nd, t, dt, dts, _ = base(spec)
    head = np.dtype([("sync", "<u4"), ("size", "<u4"), ("version", "<u4"), ("sample_count", "<u8"), ("start_time_ns", "<u8"), ("num_channels", "<u4"), ("num_samples", "<u4"), ("sample_rate", "<f4"), ("channel_spacing", "<f4"),
                     ("gauge_length", "<f4"), ("trigger", "<u4"), ("start_channel", "<u4"), ("channel_step", "<u4"), ("gps_pps_time", "<u4"), ("gps_pps_sample_offset", "<i4"), ("gps_status", "<u4"), ("flags", "<u1", (4,)),
                     ("data_type", "<u1"), ("demod_data_type", "<u1"), ("unused", "<u2"), ("trigger_offsets", "<u2", (8,))])
    packets = 1 + spec["k"] % 3
    dx = np.float32(spec["dx"])
    start, step = (0, 5)[spec["f"][0]], (1, 3)[spec["f"][1]]
    data = samples(spec, (nt * packets, nd), "f4")
    kind = (0, 1, 2, 3, 4)[(spec["k"] + spec["f"][2]) % 5]
    raw = b""
    rate = np.float32(1 / dts)
    for i in range(packets):
        row = np.zeros(1, head)
        t_i = t[0] + dt * (nt * i)
        for n, v in {"sync": 0x11223344, "size": head.itemsize, "version": 3, "sample_count": i * nt, "start_time_ns": t_i.astype("int64"), "num_channels": nd, "num_samples": nt, "sample_rate": rate, "channel_spacing": dx,
                     "gauge_length": 6.5, "start_channel": start, "channel_step": step, "data_type": kind}.items():
            row[n] = v
        raw += row.tobytes() + data[i * nt:(i + 1) * nt].astype("<f4").tobytes()
    path = tmp / ("sintela.raw" if spec["f"][3] else "sintela.dat")
    path.write_bytes(raw)
    names = [("phase", "radians"), ("phase_difference", "radians"), ("phase_rate", "radians/s"), ("strain", "microstrain"), ("strain_rate", "microstrain/s")][kind]
    assert len(_DATA_TYPE_MAP) == 5
    times = t[0] + np.round(np.arange(nt * packets) * (1e9 / float(rate))).astype("timedelta64[ns]")
    return path, "Sintela_Binary", "3", [Exp(data, ("time", "distance"), {"time": times, "distance": (start + step * np.arange(nd)) * float(dx)}, {"data_type": names[0], "gauge_length": 6.5}, {"distance": "m", "data": names[1]}, tol=2 + nt * packets, dist_tol=1e-6)], {}


def w_optodas(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    version = ("8", "9", "10", "11")[spec["k"] % 4]
    f = spec["f"]
    dims = ("distance", "time") if f[0] else ("time", "distance")
    shape = tuple({"time": nt, "distance": nd}[d] for d in dims)
    data = samples(spec, shape, spec["dtype"])
    off = (0, 4)[f[1]]  # channels which are left out before the first
    every = (1, 2)[f[2]]
    chans = off + every * np.arange(nd)
    path = tmp / "opto.hdf5"

    def put(group, name, value):
        group[name] = np.array([value]) if f[3] else value

    with h5(path) as fi:
        fi.create_group("acqSpec")
        fi.create_group("cableSpec")
        fi["data"] = data
        fi["fileVersion"] = int(version) if f[4] else np.bytes_(version)
        head = fi.create_group("header")
        head["dimensionNames"] = np.array([d.encode() for d in dims])
        head["dimensionUnits"] = np.array([{"time": b"s", "distance": b"m"}[d] for d in dims])
        first = (0, 2)[f[5]]  # the first sample of this file counted from header/time
        for i, d in enumerate(dims):
            rng = head.create_group(f"dimensionRanges/dimension{i}")
            put(rng, "min", first if d == "time" else int(chans[0]))
            put(rng, "max", first + nt - 1 if d == "time" else int(chans[-1]))
            put(rng, "unitScale", dts if d == "time" else float(spec["dx"]))
        put(head, "time", float(secs(t)[0] - first * dts))
        head["channels"] = chans
        put(head, "gaugeLength", 8.0)
        head["unit"] = np.bytes_("rad/s")
        head["instrument"] = np.bytes_("I7")
        head["experiment"] = np.bytes_("exp1")
    return path, "OptoDAS", version, [Exp(data, dims, {"time": t, "distance": chans * float(spec["dx"])}, {"gauge_length": 8.0, "instrument_id": "I7", "acquisition_id": "exp1", "data_category": "DAS"}, {"time": "s", "distance": "m", "data": "rad/s"}, tol=500)], {}


def w_silixa(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    f = spec["f"]
    data = samples(spec, (nt, nd), spec["dtype"])
    path = tmp / "silixa.h5"
    mult = (1.0, 1.02)[f[0]]
    stamp = str(np.datetime64(t[0], "us"))
    text = f"{stamp[8:10]}/{stamp[5:7]}/{stamp[:4]} {stamp[11:]} (UTC)"
    total = nd * spec["dx"]
    with h5(path) as fi:
        fi["Acoustic"] = data
        fi["Acoustic"].attrs.update({"GaugeLength": 10.0, "SamplingFrequency[Hz]": 1 / dts, "Fibre Length Multiplier": mult, "Start Distance (m)": spec["d0"], "Stop Distance (m)": spec["d0"] + total * mult,
                                     "Fibre Length per Metre": mult, "GPSTimeStamp": "" if f[1] else text, "CPUTimeStamp": text if f[1] else "01/02/2003 00:00:00.000000 (UTC)", "Tags": "tag1", "PulseWidth[ns]": 50.0,
                                     "MeasureLength[m]": total, "StartPosition[m]": spec["d0"], "SpatialResolution[m]": spec["dx"], "SystemInfomation.Devices1.SerialNum": "SX1"})
    dist = spec["d0"] + total * mult + spec["dx"] * mult * np.arange(nd)
    return path, "Silixa_H5", "1", [Exp(data, ("time", "distance"), {"time": t, "distance": dist}, {"gauge_length": 10.0, "pulse_width": 50.0, "tag": "tag1", "instrument_id": "SX1"}, {"distance": "m"}, tol=2)], {}


def w_apsensing(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    data = samples(spec, (nt, nd), spec["dtype"])
    path = tmp / "ap.hdf5"

    def val(v):
        return np.array([v])

    with h5(path) as fi:
        fi.attrs.update({"AppVersion": "1", "FileVersion": val(10), "OpticalChannelNumber": 1})
        daq, meta, server = fi.create_group("DAQ"), fi.create_group("Metadata"), fi.create_group("ProcessingServer")
        fi.create_group("Interrogator")
        fi["DAS"] = data
        daq["PositionStart"] = val(float(dist[0]))
        daq["PositionEnd"] = val(float(dist[0] + nd * spec["dx"]))
        if f[1]:
            daq["PositionStart"].attrs["Unit"] = "m"
            daq["PositionEnd"].attrs["Unit"] = "m"
        daq["SerialNumber"] = val(b"AP9")
        meta["Timestamp"] = val(str(np.datetime64(t[0], "us")).encode())
        meta["Timezone"] = val(b"UTC" if f[2] else b"UTC+0")
        meta["TraceCount"] = val(nt)
        server["DataRate"] = val(1 / dts)
        server["GaugeLength"] = val(12.0)
        server["RadiansToNanoStrain"] = val(11.5)
    return path, "APSensing", "10", [Exp(data, ("time", "distance"), {"time": t, "distance": dist}, {"gauge_length": 12.0, "radians_to_nano_strain": 11.5, "instrument_id": "AP9", "data_category": "DAS"}, {"time": "s", "distance": "m"}, tol=2)], {}


def w_dashdf5(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    dims = ("time", "channel") if f[0] and nt != nd else ("channel", "time")
    data = samples(spec, tuple({"time": nt, "channel": nd}[d] for d in dims), spec["dtype"])
    path = tmp / "cf.hdf5"
    chan = np.arange(nd) + (0, 5)[f[1]]
    xyz = {"x": 100 + dist * 2, "y": 50 - dist, "z": np.cos(dist) if f[2] else dist}
    with h5(path) as fi:
        fi.attrs["Conventions"] = ["CF-1.7", "DAS-HDF5-1.0"]
        fi.attrs["project"] = "proj"
        fi["das"] = data
        fi["das"].attrs["long_name"] = "strain"
        fi["channel"], fi["trace"], fi["t"] = chan, np.arange(nt) + 7, secs(t)
        for k, v in xyz.items():
            fi[k] = v
            fi[k].attrs["units"] = "m"
        fi["crs"] = 0
        fi["crs"].attrs["epsg_code"] = "EPSG:4326"
    return path, "DASHDF5", "1.0", [Exp(data, dims, {"time": t, "channel": chan, "trace": np.arange(nt) + 7, **xyz}, {"data_type": "strain", "project": "proj", "epsg_code": "EPSG:4326"}, {"x": "m", "y": "m", "z": "m"}, tol=500 + 250 * nt)], {}


def w_gdr(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    f = spec["f"]
    dims = ("distance", "time") if f[0] else ("time", "distance")
    data = samples(spec, tuple({"time": nt, "distance": nd}[d] for d in dims), spec["dtype"])
    path = tmp / "gdr.hdf5"
    with h5(path) as fi:
        meta = fi.create_group("DasMetadata")
        meta.attrs.update({"MetadataStandard": "DAS-RCN v1.10", "RawDataStandard": "PRODML v2.2"})
        acq = meta.create_group("Interrogator/Acquisition")
        meta["Interrogator"].attrs["SerialNumber"] = "G5"
        acq.attrs.update({"GaugeLength": 6.0, "GaugeLengthUnit": "m", "UnitOfMeasure": "NaN" if f[1] else "strain", "SpatialSamplingInterval": str(spec["dx"]) if f[2] else spec["dx"], "SpatialSamplingIntervalUnit": "m"})
        raw = fi.create_group("DasRawData")
        raw["DasTimeArray"] = t.astype("int64")
        raw["RawData"] = data
        raw["RawData"].attrs["DasDimensions"] = [{"distance": "locus"}.get(d, d) for d in dims]
    return path, "GDR_DAS", "1", [Exp(data, dims, {"time": t, "distance": spec["dx"] * np.arange(nd)}, {"gauge_length": 6.0, "gauge_length_units": "m", "instrument_id": "G5"}, {"distance": "m", "data": None if f[1] else "strain"}, tol=2)], {}


def w_neubrex_rfs(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    data = samples(spec, (nt, nd), spec["dtype"])
    path = tmp / "rfs.h5"
    with h5(path) as fi:
        fi["data"] = data
        fi["data"].attrs.update({"DataUnitLabel": ("GHz", "micro-strain", "deg-C")[spec["k"] % 2], "StartDateTime": "a", "EndDateTime": "b", "API": "api1", "FieldName": "FORGE", "WellID": "w1", "WellName": "well", "WellBoreID": "bore"})
        fi["depth"] = dist
        fi["stamps"] = np.array([str(x).encode() for x in t])
        fi["stamps_unix"] = t.astype("datetime64[us]").astype("int64")
    return path, "NeubrexRFS", "1", [Exp(data, ("time", "distance"), {"time": t, "distance": dist}, {"well_id": "w1", "well_name": "well", "well_bore_id": "bore", "api": "api1", "field_name": "FORGE"}, {"data": ("GHz", "microstrain")[spec["k"] % 2]}, tol=2)], {}


def w_neubrex_das(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    data = samples(spec, (nt, nd), spec["dtype"])
    path = tmp / "neudas.h5"
    stamp = str(np.datetime64(t[0], "us"))
    with h5(path) as fi:
        fi["Acoustic"] = data
        fi["Acoustic"].attrs.update({"NEUBRESCOPE.DAS.Model": "NBX", "NEUBRESCOPE.DAS.SerialNum": "N3", "StartPosition": float(dist[0]), "StopPosition": float(dist[-1]), "SpatialSamplingInterval": spec["dx"],
                                     "GPSTimeStamp(UTC)": "" if f[0] else stamp, "CPUTimeStamp(UTC)": stamp if f[0] else "2000-01-01T00:00:00", "TimeSamplingInterval(seconds)": dts, "DistanceDecimationFilter": int(f[1]),
                                     "TimeDecimationFilter": int(f[2]), "StartStopPositionUnit": "m", "DataPhysicalUnit": "micro-strain", "GaugeLength": 5.5, "GaugeLengthUnits": "m", "IndexOfRefraction": 1.47,
                                     "PhaseToStrainConversion(MicroStrainPerRadian)": 0.5})
    return path, "NeubrexDAS", "1", [Exp(data, ("time", "distance"), {"time": t, "distance": dist}, {"gauge_length": 5.5, "gauge_length_units": "m", "instrument_id": "N3", "instrument_model": "NBX", "phase_to_strain": 0.5, "index_of_refraction": 1.47},
                                         {"distance": "m", "data": "microstrain"}, tol=2)], {}


def w_tdms(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    f = spec["f"]
    dtype = "<i2" if f[0] else "<f4"
    mult = (1.0, 2.0)[f[1]]
    chunk = min(nt, (nt, 2, 3)[spec["k"] % 3])
    data = samples(spec, (nt, nd), dtype)
    interleaved = f[2]

    def text(s):
        return struct.pack("<i", len(s)) + s.encode()

    def prop(name, value):
        if isinstance(value, str):
            return text(name) + struct.pack("<i", 0x20) + text(value)
        if isinstance(value, float):
            return text(name) + struct.pack("<i", 0x0A) + struct.pack("<d", value)
        if isinstance(value, np.datetime64):
            us = int((value - np.datetime64("1904-01-01", "ns")) / np.timedelta64(1, "us"))
            s, rest = divmod(us, 10**6)
            return text(name) + struct.pack("<i", 0x44) + struct.pack("<Qq", int(rest * 2**64 // 10**6), s)
        return text(name) + struct.pack("<i", 3) + struct.pack("<i", value)

    props = {"SamplingFrequency[Hz]": 1 / dts, "GPSTimeStamp": t[0], "Fibre Length Multiplier": mult, "MeasureLength[m]": nd * spec["dx"], "StartPosition[m]": float(spec["d0"]), "SpatialResolution[m]": float(spec["dx"]),
             "SystemInfomation.Devices0.SerialNum": "TD4", "tag": "tt", "count": 4}
    if f[3]:
        props = dict(reversed(props.items()))
    meta = struct.pack("<i", nd + 2) + text("/") + struct.pack("<i", -1) + struct.pack("<i", len(props)) + b"".join(prop(k, v) for k, v in props.items())
    meta += text("/'Measurement'") + struct.pack("<ii", -1, 0)  # group: no data index, no properties
    for i in range(nd):
        meta += text(f"/'Measurement'/'{i}'") + struct.pack("<i", 20) + struct.pack("<i", 2 if f[0] else 9) + struct.pack("<i", 1) + struct.pack("<q", chunk) + struct.pack("<i", 0)
    def body(part):
        if interleaved:
            return part.tobytes()
        return b"".join(np.ascontiguousarray(part[i:i + chunk].T).tobytes() for i in range(0, len(part), chunk))

    toc = 0b1110 | (0b100000 if interleaved else 0)
    # a second segment repeats the description of the first and only holds samples.
    cut = nt if not f[5] else min(nt - 1, max(chunk, nt // 2)) if nt > 1 else nt
    one, two = body(data[:cut]), body(data[cut:])
    nxt = len(meta) + len(one) if f[4] or two else 0xFFFFFFFFFFFFFFFF
    raw = struct.pack("<4siiQQ", b"TDSm", toc, 4713, nxt, len(meta)) + meta + one
    if two:
        raw += struct.pack("<4siiQQ", b"TDSm", toc & ~0b0110, 4713, len(two), 0) + two
    path = tmp / "silixa.tdms"
    path.write_bytes(raw)
    dist = spec["d0"] + spec["dx"] * mult * np.arange(nd)
    return path, "TDMS", "4713", [Exp(data, ("time", "distance"), {"time": t, "distance": dist}, {"instrument_id": "TD4", "tag": "tt", "data_type": "strain_rate"}, {"time": "s", "distance": "m"}, tol=2)], {}


XML = """<?xml version="1.0"?>
<Metadata><FileFormat>RAW</FileFormat><DateTime>{start}</DateTime><DasInterrogatorSerial><Interrogator1>X1</Interrogator1></DasInterrogatorSerial><GaugeLengthM>9.5</GaugeLengthM><PulseWidthNs>40</PulseWidthNs>
<DataType>{dtype}</DataType><NumberOfLasers>1</NumberOfLasers><ITUChannels><Laser1>34</Laser1></ITUChannels><OriginalTemporalSamplingRate>{rate}</OriginalTemporalSamplingRate><OutputTemporalSamplingRate>{rate}</OutputTemporalSamplingRate>
<OriginalSpatialSamplingInterval>{dx}</OriginalSpatialSamplingInterval><Units>m</Units><Zones><Zone1><StartChannel>{c0}</StartChannel><EndChannel>{c1}</EndChannel><Stride>1</Stride><NumberOfChannels>{nd}</NumberOfChannels></Zone1></Zones>
<NumberOfChannels>{nd}</NumberOfChannels><NumberOfFrames>{nt}</NumberOfFrames><UseRelativeStrain>false</UseRelativeStrain><TransposedData>false</TransposedData></Metadata>
"""


def w_xml(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    path = tmp / "xml"
    path.mkdir()
    dtype = ("int16", "float32", "uint16")[spec["k"] % 3]
    c0 = (1, 4)[spec["f"][0]]
    (path / "metadata.xml").write_text(XML.format(start=str(np.datetime64(t[0], "us")), dtype=dtype, rate=1 / dts, dx=spec["dx"], c0=c0, c1=c0 + nd - 1, nd=nd, nt=nt))
    exps = []
    count = 1 + spec["k"] % 4
    for i in ([2, 0, 3, 1] if spec["f"][1] else [0, 1, 2, 3]):
        if i >= count:
            continue
        start = np.datetime64(t[0] + dt * nt * i, "us")
        s = str(start)
        data = np.abs(samples(spec, (nt, nd), dtype) + np.dtype(dtype).type(i))
        frac = s.split(".")[1] if "." in s else "000000"
        (path / f"DAS_{s[:4]}{s[5:7]}{s[8:10]}T{s[11:13]}{s[14:16]}{s[17:19]}_{frac}Z.raw").write_bytes(data.tobytes())
        exps.append(Exp(data, ("time", "distance"), {"time": start.astype("datetime64[ns]") + dt * np.arange(nt), "distance": (c0 - 1 + np.arange(nd)) * spec["dx"]},
                        {"gauge_length": 9.5, "pulse_width_ns": 40.0, "instrument_id": "X1", "zone_name": "Zone1"}, {"time": "s", "distance": "m"}, tol=2))
    return path, "XMLBinary", "1", exps, {}


def w_dasvader(spec, tmp):
    import h5py

    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    tp = np.dtype([("hi", "f8"), ("lo", "f8")])
    srl = np.dtype([("ref", tp), ("step", tp), ("len", "i8"), ("offset", "i8")])
    t0ms = np.datetime64(t[0], "ms")
    start = (0.0, 2.5)[f[0]]

    def rng(first, step, n):
        off = 1 + (n // 2 if f[1] else 0)
        return ((first + (off - 1) * step, 0.0), (step, 0.0), n, off)

    name = "data" if f[2] else "strainrate"
    dims = ("distance", "time") if f[2] else ("time", "distance")
    data = samples(spec, tuple({"time": nt, "distance": nd}[d] for d in dims), spec["dtype"])
    path = tmp / "vader.jld2"
    with h5(path) as fi:
        ms = t0ms.astype("int64") + 62135683200000
        fi["a/h"] = np.array([ms], dtype="i8") if f[3] else np.array([((ms,),)], dtype=[("instant", [("value", "i8")])])
        fi["a/d"] = data
        rec = np.dtype([(name, h5py.ref_dtype), ("time", srl), ("htime", h5py.ref_dtype), ("offset", srl), ("atrib", h5py.ref_dtype)])
        at = np.zeros((), dtype=[("GaugeLength", "f8"), ("Hostname", "S5"), ("PulseWidth", "f8")])
        at["GaugeLength"], at["Hostname"], at["PulseWidth"] = 4.5, b"host", 3.0
        fi["a/t"] = at
        row = np.zeros((), dtype=rec)
        row[name], row["htime"], row["atrib"] = fi["a/d"].ref, fi["a/h"].ref, fi["a/t"].ref
        row["time"], row["offset"] = rng(start, dts, nt), rng(float(dist[0]), float(spec["dx"]), nd)
        fi.create_dataset("dDAS", data=row)
    times = t0ms.astype("datetime64[ns]") + np.timedelta64(int(start * 1e9), "ns") + dt * np.arange(nt)
    return path, "DASVader", "1", [Exp(data, dims, {"time": times, "distance": dist}, {"gauge_length": 4.5, "host_name": "host", "pulse_width": 3.0}, {"data": "nanostrain"}, tol=500)], {}


def w_sor(spec, tmp):
    nt, nd, t, dt, dts, _ = base(spec)
    n = nd + 1
    raw = (np.arange(n) * 977 + spec["seed"]) % 60000
    stamp = int(t[0].astype("datetime64[s]").astype("int64"))
    spacing, ior, scale = 500_000 * (1 + spec["k"]), 146_800, (1000, 500)[spec["f"][0]]
    blocks = {
        "GenParams": b"EN" + b"cable\0fiber\0",
        "SupParams": b"Acme\0OFL100\0S77\0",
        "FxdParams": struct.pack("<I2sH", stamp, b"mt", 15500) + b"\0" * 12 + struct.pack("<III", spacing, n, ior) + b"\0" * 8 + struct.pack("<I", 100) + b"\0" * 8,
        "DataPts": struct.pack("<IHIH", n, 1, n, scale) + raw.astype("<u2").tobytes(),
        "Cksum": b"\1\2",
    }
    order = list(blocks)
    if spec["f"][1]:
        order = [order[1], order[0], order[3], order[2], order[4]]
    bodies = {k: k.encode() + b"\0" + v for k, v in blocks.items()}
    entries = b"".join(k.encode() + b"\0" + struct.pack("<HI", 200, len(bodies[k])) for k in order)
    size = len(b"Map\0") + 8 + len(entries)
    path = tmp / "trace.sor"
    path.write_bytes(b"Map\0" + struct.pack("<HIH", 200, size, len(order) + 1) + entries + b"".join(bodies[k] for k in order))
    step = spacing * 1e-8 * 0.299792458 / (ior * 1e-5) * 1000
    data = ((raw.max() - raw) * scale / 1e6)[None, :]
    return path, "SR4731", "200", [Exp(data, ("time", "distance"), {"time": t[:1].astype("datetime64[s]").astype("datetime64[ns]"), "distance": step * np.arange(n)}, {"data_type": "otdr", "instrument_id": "Acme-OFL100-S77", "wavelength_nm": 1550.0,
                                   "serial_number": "S77", "refractive_index": 1.468}, {"distance": "m", "data": "dB"}, dist_tol=1e-9)], {}


def w_febus(spec, tmp):
    """Febus A1: blocks of samples which may overlap, times of the middle of the blocks."""
    nt, nd, t, dt, dts, _ = base(spec)
    f = spec["f"]
    version2 = f[0]
    nb = max(2, nt)
    half = 2 + spec["k"] % 3
    body = 2 * half  # samples of a block without the overlap
    removed = f[1] or not version2
    # overlap of 100 percent: a block holds every sample twice
    block = body if removed else 2 * body
    x0 = (0, 3)[f[2]]
    dist0 = 0.0 if f[3] else float(spec["d0"])
    whole = samples(spec, (nb * body, nd), "f4")
    cube = np.zeros((nb, block, nd), "f4")
    cut = (block - body) // 2
    for i in range(nb):
        for j in range(block):
            k = i * body + j - cut
            cube[i, j] = whole[k] if cut <= j < cut + body else -999
    ms = dts * 1000
    start = secs(t)[0]
    block_s = body * dts
    # the stamp of a block minus the origin is the time of its first sample
    origin = -(block // 2) * ms
    stamps = start + np.arange(nb) * block_s - cut * dts - origin / 1000
    path = tmp / "febus.h5"
    with h5(path) as fi:
        src = fi.create_group("fa1/Source1")
        src.attrs.update({"AmpliPower": 1.0, "Hostname": "h", "WholeExtent": [0, nd - 1, 0, 0], "SamplingRate": 1 / dts})
        if version2:
            src.attrs["Version"] = np.bytes_("2.0.1")
        src["time"] = stamps
        zone = src.create_group("Zone1")
        extent0 = 0 if not removed else 1
        zone.attrs.update({"Extent": np.array([x0, x0 + nd - 1, extent0, extent0 + block - 1]), "Spacing": np.array([spec["dx"], ms]), "Origin": np.array([dist0, origin, 0.0]), "GaugeLength": np.array([5.0]), "SamplingRate": np.array([1 / dts]),
                           "Overlap": np.array([100]), "PulseWidth": np.array([3.0])})
        if f[4]:
            zone.attrs["BlockRate"] = np.array([1000 / block_s])
        if version2:
            zone.attrs["Version"] = np.bytes_("2.0.1")
        zone["StrainRate"] = cube
    times = t[0] + dt * np.arange(nb * body)
    dist = dist0 + (x0 + np.arange(nd)) * spec["dx"]
    return path, "febus", "2" if version2 else "1", [Exp(whole, ("time", "distance"), {"time": times, "distance": dist}, {"gauge_length": 5.0, "pulse_width": 3.0, "group": "fa1", "source": "Source1", "zone": "Zone1"}, {"distance": "m", "data": "nanostrain/s"}, tol=1000)], {}


def w_segy(spec, tmp):
    """Revisions 1 and 2, IEEE or integer samples, big endian."""
    nt, nd = spec["nt"] + 1, spec["nd"]
    f = spec["f"]
    dt_us = min(spec["dt"], 10_000)
    t0 = np.datetime64(spec["t0"], "s")
    code, kind = ((5, ">f4"), (2, ">i4"), (3, ">i2"))[spec["k"] % 3]
    version = ((1, 0), (2, 0), (2, 1), (0, 0))[spec["k"] % 4]
    data = samples(spec, (nt, nd), kind)
    head = bytearray(400)
    struct.pack_into(">hhhhhhh", head, 12, nd, 0, dt_us, dt_us, nt, nt, code)
    struct.pack_into(">bbh", head, 300, *version, 1)
    day = int((t0.astype("datetime64[D]") - t0.astype("datetime64[Y]").astype("datetime64[D]")).astype(int)) + 1
    clock = str(t0)
    raw = bytes(3200) + bytes(head)
    for i in range(nd):
        tr = bytearray(240)
        struct.pack_into(">ii", tr, 0, i + 1, i + 1)
        struct.pack_into(">hh", tr, 114, nt, dt_us)
        struct.pack_into(">hhhhh", tr, 156, int(clock[:4]), day, int(clock[11:13]), int(clock[14:16]), int(clock[17:19]))
        raw += bytes(tr) + data[:, i].tobytes()
    path = tmp / ("x.segy" if f[0] else "x.dat")
    path.write_bytes(raw)
    times = t0.astype("datetime64[ns]") + np.timedelta64(dt_us * 1000, "ns") * np.arange(nt)
    return path, "segy", f"{version[0]}.{version[1]}", [Exp(data.astype(kind[1:]), ("time", "channel"), {"time": times, "channel": np.arange(nd)}, tol=2)], {}


def w_febus_g1(spec, tmp):
    """HDF5 files of the G1: spectra (mtx) or strain (bsl)."""
    nt, nd, t, dt, dts, dist = base(spec)
    f = spec["f"]
    nf = 1 + spec["k"] % 4
    path = tmp / "g1.h5"
    attrs = {"formatVersion": np.array([1]) if f[0] else 1, "mode": 1, "channel": np.array([2]), "fiberFrom": 0.0, "fiberTo": 10.0, "freq_offset_abs": np.array([10500.0]), "freq_step": 2.5, "average": 12}
    coords = {"time": t, "distance": dist, "temperature": 20.5 + 0.1 * np.arange(nt)}
    with h5(path) as fi:
        fi["start_times"], fi["end_times"] = secs(t), secs(t) + dts
        fi["distances"], fi["temperatures"] = dist, coords["temperature"]
        if f[1]:
            data = samples(spec, (nt, nd, nf), "f4")
            fi["mtx"] = data
            coords["frequency"] = 10500.0 + 2.5 * np.arange(nf)
            out = ("febus_mtx_h5", ("time", "distance", "frequency"), {"frequency": "MHz"}, {"data_type": "brillouin_spectrum"})
        else:
            data = samples(spec, (nt, nd), "f8")
            fi["bsl_data"] = data
            out = ("febus_bsl_h5", ("time", "distance"), {"data": "microstrain"}, {"data_type": "strain"})
        fi.attrs.update(attrs)
    return path, out[0], "1", [Exp(data, out[1], coords, {"average": 12, "channel": 2, **out[3]}, {"distance": "m", "temperature": "degC", **out[2]}, tol=500 + 250 * nt)], {}


def w_febus_t1(spec, tmp):
    nt, nd, t, dt, dts, dist = base(spec)
    data = samples(spec, (nt, nd), spec["dtype"])
    path = tmp / "t1.h5"
    with h5(path) as fi:
        fi["Data/Temperature"] = data
        fi["Data/Distance"] = dist
        fi["Data/DistanceSignal"] = np.arange(20.0)
        fi["Data/Time"] = secs(t)[:, None] if spec["f"][0] else secs(t)
    return path, "FEBUS_T1", "1", [Exp(data, ("time", "distance"), {"time": t, "distance": dist}, {"data_type": "temperature", "instrument_model": "T1"}, {"time": "s", "distance": "m", "data": "degC"}, tol=500 + 250 * nt)], {}


def w_febus_csv(spec, tmp):
    """The text file of the G1: one trace of strain or temperature."""
    nt, nd, t, dt, dts, _ = base(spec)
    n = nd + 1
    mode = ("strain", "temperature")[spec["f"][0]]
    data = samples(spec, (n, 1), "f8")
    start = float(secs(t)[0])
    path = tmp / f"FBX1_1_{str(t[0])[:19].replace(':', '.')}.bsl"
    rows = [("start time", start), ("end time", start + 10), ("mode", mode), ("channel", 2), ("fiberFrom", spec["d0"]), ("fiberTo", spec["d0"] + n * spec["dx"]), ("sampling_resolution", spec["dx"]), ("average", 16)]
    if spec["f"][1]:
        rows = rows[:3] + rows[:2:-1]
    path.write_text("".join(f"Param;{k};{v}\n" for k, v in rows) + "".join(f"{v!r}\n" for v in data[:, 0].tolist()))
    return path, "febus_g1_csv", "1", [Exp(data, ("distance", "time"), {"time": t[:1], "distance": spec["d0"] + spec["dx"] * np.arange(n)}, {"data_type": mode, "instrument_id": "FBX1", "channel": 2, "average": 16.0}, {"distance": "m", "data": {"strain": "microstrain", "temperature": "degC"}[mode]}, tol=500)], {"ranges": False}


WRITERS = {"h5simple": w_h5simple, "terra15": w_terra15, "prodml": w_prodml, "sintela": w_sintela, "optodas": w_optodas, "silixa": w_silixa, "apsensing": w_apsensing, "dashdf5": w_dashdf5, "gdr": w_gdr,
           "neubrex_rfs": w_neubrex_rfs, "neubrex_das": w_neubrex_das, "tdms": w_tdms, "xml": w_xml, "dasvader": w_dasvader, "sor": w_sor, "febus": w_febus, "segy": w_segy, "febus_g1": w_febus_g1, "febus_t1": w_febus_t1, "febus_csv": w_febus_csv}


@st.composite
def case(draw, names):
    fmt = draw(S(*names))

    def query():
        if draw(S(True, False, False)):
            return None
        one = lambda: draw(S(None, "...", 0, 0, 0, 0, 0, 0)) or [draw(I(-1, 7)), draw(S(0.0, 0.0, 0.5, -0.5))]
        return [one(), one()]

    return {"fmt": fmt, "nt": draw(S(1, 2, 3, 4, 5, 6, 7)), "nd": draw(S(1, 2, 3, 4, 5, 6)), "t0": draw(S(*T0)), "dt": draw(S(*DT_US)), "d0": draw(S(0.0, 10.0, 100.5, -20.0, 1234.25)), "dx": draw(S(1.0, 0.5, 2.0, 0.25, 10.0, 1.021, 4.0838)),
            "dtype": draw(S("f4", "f8", "i2", "i4")), "seed": draw(I(0, 500)), "k": draw(I(0, 11)), "f": [draw(st.booleans()) for _ in range(6)], "q": [[query(), query()] for _ in range(draw(I(1, 4)))],
            "typ": draw(S("path", "str"))}


def digest(path):
    paths = [path] if path.is_file() else sorted(path.rglob("*"))
    return {str(p): hashlib.sha1(p.read_bytes()).hexdigest() for p in paths if p.is_file() and not p.name.startswith(".")}


def same_labels(got, want, tol, dist_tol):
    """Labels equal, allowing for the resolution with which a format stores them."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if want.dtype.kind == "M":
        return got.dtype.kind == "M" and bool(np.all(np.abs(got.astype("datetime64[ns]").astype("int64") - want.astype("datetime64[ns]").astype("int64")) <= tol))
    scale = max(float(np.max(np.abs(want))), 1.0) if want.size else 1.0
    return got.dtype.kind in "fiu" and bool(np.all(np.abs(got.astype(float) - want.astype(float)) <= scale * max(dist_tol, 1e-12)))


def check_patch(patch, exp, what):
    check_coherent(patch, what)
    require(tuple(patch.dims) == exp.dims, lambda: f"{what}: dims {patch.dims}, stored {exp.dims}")
    data = np.asarray(patch.data)
    require(data.shape == exp.data.shape, lambda: f"{what}: shape {data.shape}, stored {exp.data.shape}")
    require(data.dtype == exp.data.dtype, lambda: f"{what}: dtype {data.dtype}, stored {exp.data.dtype}")
    check_values(data, exp.data, f"{what}: data")
    require(set(patch.coords.coord_map) == set(exp.coords), lambda: f"{what}: coordinates {sorted(patch.coords.coord_map)}, stored {sorted(exp.coords)}")
    for name, vals in exp.coords.items():
        got = patch.get_array(name)
        require(same_labels(got, vals, exp.tol, exp.dist_tol), lambda: f"{what}: {name} {got}, the header declares {vals}")
    check_attrs(patch.attrs, exp, what)


def check_attrs(attrs, exp, what):
    for name, val in exp.attrs.items():
        got = getattr(attrs, name, "missing")
        if isinstance(val, float):
            ok = isinstance(got, (float, np.floating, int)) and abs(float(got) - val) <= 1e-9 * abs(val)
        elif name.endswith("units"):
            check_units(got, val, f"{what}: {name}")
            ok = True
        else:
            ok = got == val
        require(ok, lambda: f"{what}: {name} is {got!r}, the header declares {val!r}")
    if "data" in exp.units:
        check_units(attrs.data_units, exp.units["data"], f"{what}: data units")
    for name, unit in exp.units.items():
        if name != "data":
            check_units(attrs.coords[name].units, unit, f"{what}: units of {name}")


def bounds(query, coord):
    """A range for a query by position."""
    if query is None:
        return None
    vals = coord
    out = []
    step = vals[1] - vals[0] if len(vals) > 1 else (np.timedelta64(1, "ms") if vals.dtype.kind == "M" else 1.0)
    for q in query:
        if q is None:
            out.append(None)
        elif q == "...":
            out.append(...)
        else:
            i, frac = q
            if 0 <= i < len(vals) and frac == 0:
                out.append(vals[i])
            elif vals.dtype.kind == "M":
                out.append(vals[0] + (step * i) + np.timedelta64(int(frac * step.astype("timedelta64[ns]").astype("int64")), "ns"))
            else:
                out.append(float(vals[0] + step * (i + frac)))
    a, b = out
    if a is not None and a is not ... and b is not None and b is not ... and a > b:
        a, b = b, a
    return (a, b)


def pairs(patches, exps, what):
    """Match patches with what is stored, whatever the order."""
    require(len(patches) == len(exps), lambda: f"{what}: {len(patches)} patches, {len(exps)} stored")
    def order(dims_time, data):
        return (str(dims_time), float(np.asarray(data).ravel()[0]), float(np.asarray(data, dtype=float).sum()))
    a = sorted(patches, key=lambda p: order(np.datetime64(p.get_array("time").min(), "s"), p.data))
    b = sorted(exps, key=lambda e: order(np.datetime64(e.coords["time"].min(), "s"), e.data))
    return list(zip(a, b))


def snap(patch):
    out = Snap(patch)
    out.attrs["history"] = []
    if out.attrs.get("path"):  # the reader may keep a Path where the index has text
        out.attrs["path"] = str(out.attrs["path"])
    return out


def vendor(spec, ctx):
    import dascore as dc
    from dascore.io.core import FiberIO

    tmp = Path(ctx.tmpdir())
    path, name, version, exps, opts = WRITERS[spec["fmt"]](spec, tmp)
    src = str(path) if spec["typ"] == "str" else path
    before = digest(path)
    what = f"{name} {version} file"
    got = tuple(dc.get_format(src))
    require(got == (name, version), lambda: f"{what}: detected as {got}")
    for other in FiberIO.manager._get_prioritized_list("file") if path.is_file() else ():
        if other.name == name:
            continue
        try:
            claim = other.get_format(path)
        except Exception:  # noqa: BLE001
            claim = False
        require(not claim, lambda: f"{what}: also claimed by {other.name} {other.version}: {claim}")
    full = list(dc.read(src))
    for patch, exp in pairs(full, exps, what):
        check_patch(patch, exp, what)
    for kw in ({"file_format": name}, {"file_format": name, "file_version": version}):
        again = list(dc.read(src, **kw))
        require(len(again) == len(full), lambda: f"{what}: {len(again)} patches with {kw}, {len(full)} without")
        for a, b in zip(again, full):
            check_same_snap(snap(b), snap(a), f"{what} read with {kw}")
    scan = dc.scan(src)
    require(len(scan) == len(full), lambda: f"{what}: scanning finds {len(scan)} patches, reading {len(full)}")
    def scan_key(attrs):
        return (str(attrs.coords["time"].min), *(str(v) for v in (getattr(attrs, "start_frequency", ""), getattr(attrs, "zone", ""))))
    for attrs, patch in zip(sorted(scan, key=scan_key), sorted(full, key=lambda p: scan_key(p.attrs))):
        check_scan(attrs, patch, path, name, version, what)
    for attrs, exp in zip(sorted(scan, key=scan_key), sorted(exps, key=lambda e: (str(e.coords["time"].min()), str(e.attrs.get("start_frequency", ""))))):
        check_attrs(attrs, exp, f"scan of {what}")
    sp = dc.spool(src)
    for patch, exp in pairs(list(sp), exps, f"spool of {what}"):
        check_patch(patch, exp, f"spool of {what}")
    partial = False
    for qt, qd in spec["q"]:
        kw = {}
        other = next((d for d in full[0].dims if d != "time"), None)
        if (b := bounds(qt, np.asarray(full[0].get_array("time")))) is not None:
            kw["time"] = b
        if (b := bounds(qd, np.asarray(full[0].get_array(other)))) is not None:
            kw[other] = b
        if not kw:
            continue
        want = [p for p in (p.select(**kw) for p in full) if p.data.size]
        hows = {"read": lambda: list(dc.read(src, **kw)), "spool": lambda: list(dc.spool(src).select(**kw))}
        for how, func in hows.items():
            if how == "read" and not opts.get("ranges", True):
                continue
            try:
                part = func()
            except Exception as exc:  # noqa: BLE001
                fail(f"{what}: {how} with {kw} raises {type(exc).__name__}: {exc}")
            label = f"{what}: {how} with {kw}"
            if path.is_dir() and how == "spool":  # an index has no distances; nothing may be left of some patches
                part = [p for p in part if p.data.size]
            require(len(part) == len(want), lambda: f"{label}: {len(part)} patches, selecting from all gives {len(want)}")
            if how == "spool":
                part, cmp_want = sorted(part, key=lambda p: scan_key(p.attrs)), sorted(want, key=lambda p: scan_key(p.attrs))
            else:
                cmp_want = want
            for a, b in zip(cmp_want, part):
                check_same_snap(snap(a), snap(b), label, stored=True)
        partial = partial or 0 < sum(p.data.size for p in want) < sum(p.data.size for p in full)
    require(digest(path) == before, lambda: f"{what}: reading changed the file")
    ctx.nontrivial(sum(e.data.size for e in exps) > 1 or partial)


def check_scan(attrs, patch, path, name, version, what):
    """Scanning declares what reading gives."""
    require(Path(str(attrs.path)).resolve().is_relative_to(path.resolve()), lambda: f"{what}: scan gives path {attrs.path}")
    require((attrs.file_format, str(attrs.file_version)) == (name, version), lambda: f"{what}: scan gives {attrs.file_format} {attrs.file_version}")
    one, two = attrs.model_dump(), patch.attrs.model_dump()
    for d in (one, two):
        for n in ("path", "file_format", "file_version", "history"):
            d.pop(n, None)
    require(one["dims"] == two["dims"], lambda: f"{what}: scan gives dims {one['dims']}, read {two['dims']}")
    c1, c2 = one.pop("coords"), two.pop("coords")
    require(set(c1) == set(c2), lambda: f"{what}: scan gives coordinates {sorted(c1)}, read {sorted(c2)}")
    for n in c1:
        for k in ("dtype", "min", "max", "step", "units"):
            a, b = c1[n].get(k), c2[n].get(k)
            if k == "step" and c1[n]["min"] == c1[n]["max"]:
                continue
            same = (a == b) or (a != a and b != b) or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-9 * max(abs(a), 1.0))
            require(same, lambda: f"{what}: {k} of {n} is {a!r} in scan, {b!r} in read")
    for n in sorted(set(one) | set(two)):
        a, b = one.get(n, "missing"), two.get(n, "missing")
        require(a == b or (a != a and b != b) or repr(a) == repr(b), lambda: f"{what}: attribute {n} is {a!r} in scan, {b!r} in read")


FIRST = ("h5simple", "terra15", "prodml", "sintela", "optodas")
SECOND = ("silixa", "apsensing", "dashdf5", "gdr", "neubrex_rfs", "neubrex_das")
THIRD = ("tdms", "xml", "dasvader", "sor", "segy")
FEBUS = ("febus", "febus", "febus_g1", "febus_t1", "febus_csv")


@facet("interchange", case(FIRST), quick=300, weight=2)
@quiet
def check_interchange(spec, ctx):
    """H5Simple, Terra15, ProdML, Sintela, OptoDAS: reading, scanning, ranges."""
    vendor(spec, ctx)


@facet("hdf5", case(SECOND), quick=300, weight=2)
@quiet
def check_hdf5(spec, ctx):
    """Silixa, AP Sensing, DAS-HDF5, GDR, Neubrex: reading, scanning, ranges."""
    vendor(spec, ctx)


@facet("others", case(THIRD), quick=300, weight=2)
@quiet
def check_others(spec, ctx):
    """TDMS, XML binary, DASVader, SR-4731, SEGY: reading, scanning, ranges."""
    vendor(spec, ctx)


@facet("febus", case(FEBUS), quick=200, weight=2)
@quiet
def check_febus(spec, ctx):
    """Febus A1, G1 and T1 files: reading, scanning, ranges."""
    vendor(spec, ctx)


FACETS = [check_interchange, check_hdf5, check_others, check_febus]
