"""Reference reading of link information, [MS-SHLLINK] 2.3."""
from spec import text
from spec.ref import u16, u32

DRIVES = [
    "DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED", "DRIVE_REMOTE", "DRIVE_CDROM",
    "DRIVE_RAMDISK",
]

_NAMES = (
    "1A AVID|1B DOCUSPACE|1C MANGOSOFT|1D SERNET|1E RIVERFRONT1|1F RIVERFRONT2|20 DECORB|21 PROTSTOR|22 FJ_REDIR|"
    "23 DISTINCT|24 TWINS|25 RDR2SAMPLE|26 CSC|27 3IN1|29 EXTENDNET|2A STAC|2B FOXBAT|2C YAHOO|2D EXIFS|2E DAV|"
    "2F KNOWARE|30 OBJECT_DIRE|31 MASFAX|32 HOB_NFS|33 SHIVA|34 IBMAL|35 LOCK|36 TERMSRV|37 SRT|38 QUINCY|"
    "39 OPENAFS|3A AVID1|3B DFS|3C KWNP|3D ZENWORKS|3E DRIVEONWEB|3F VMWARE|40 RSFX|41 MFILES|42 MS_NFS|43 GOOGLE"
)
PROVIDERS = {int(x.split(" ")[0], 16) << 16: "WNNC_NET_" + x.split(" ")[1] for x in _NAMES.split("|")}


def front(d, pos, cp):
    """Header fields and the paths common to both kinds."""
    hdr = u32(d, pos + 4)
    out = {
        "link_info_size": u32(d, pos),
        "link_info_header_size": hdr,
        "link_info_flags": u32(d, pos + 8),
        "volume_id_offset": u32(d, pos + 12),
        "local_base_path_offset": u32(d, pos + 16),
        "common_network_relative_link_offset": u32(d, pos + 20),
        "common_path_suffix_offset": u32(d, pos + 24),
    }
    n = u32(d, pos + 16)
    if n:
        out["local_base_path"] = text.ansi(d[pos + n :], cp)
    n = u32(d, pos + 24)
    if n:
        out["common_path_suffix"] = text.ansi(d[pos + n :], cp)
    if hdr >= 36:
        n = u32(d, pos + 28)
        if n:
            out["local_base_path_offset_unicode"] = n
            out["local_base_path_unicode"] = text.wide(d[pos + n :])
        n = u32(d, pos + 32)
        if n:
            out["common_path_suffix_offset_unicode"] = n
            out["common_path_suffix_unicode"] = text.wide(d[pos + n :])
    return out


def local(d, pos, cp):
    out = front(d, pos, cp)
    v = pos + u32(d, pos + 12)
    kind = u32(d, v + 4)
    label = u32(d, v + 12)
    name = None
    for i, x in enumerate(DRIVES):
        if kind == i:
            name = x
            break
    loc = {
        "volume_id_size": u32(d, v),
        "r_drive_type": kind,
        "drive_type": name,
        "drive_serial_number": "0x%x" % u32(d, v + 8),
        "volume_label_offset": label,
    }
    if label == 20:
        n = u32(d, v + 16)
        loc["volume_label"] = None
        loc["volume_label_unicode_offset"] = n
        loc["volume_label_unicode"] = text.wide(d[v + n :])
    else:
        loc["volume_label"] = text.ansi(d[v + label :], cp)
    out["location"] = "Local"
    out["location_info"] = loc
    return out


def network(d, pos, cp):
    out = front(d, pos, cp)
    r = pos + u32(d, pos + 20)
    flags, net, dev, prov = u32(d, r + 4), u32(d, r + 8), u32(d, r + 12), u32(d, r + 16)
    loc = {
        "common_network_relative_link_size": u32(d, r),
        "common_network_relative_link_flags": flags,
        "net_name_offset": net,
        "device_name_offset": dev,
        "r_network_provider_type": "0x%x" % prov,
    }
    if flags & 2:
        for k in PROVIDERS:
            if prov == k:
                loc["network_provider_type"] = PROVIDERS[k]
                break
    if net > 20:
        n = u32(d, r + 20)
        if n:
            loc["net_name_offset_unicode"] = n
            loc["net_name_unicode"] = text.wide(d[r + n :])
        n = u32(d, r + 24)
        if n:
            loc["device_name_offset_unicode"] = n
            loc["device_name_unicode"] = text.wide(d[r + n :])
    else:
        if net:
            name = text.ansi(d[r + net :], cp)
            if name:
                loc["net_name"] = name
        if dev:
            name = text.ansi(d[r + dev :], cp)
            if name:
                loc["device_name"] = name
    out["location"] = "Network"
    out["location_info"] = loc
    return out
