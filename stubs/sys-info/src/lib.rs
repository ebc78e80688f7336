//! A machine of fixed size.
pub struct DiskInfo {
    pub total: u64,
    pub free: u64,
}
pub struct MemInfo {
    pub total: u64,
    pub free: u64,
    pub avail: u64,
}
pub struct LoadAvg {
    pub one: f64,
    pub five: f64,
    pub fifteen: f64,
}
pub fn disk_info() -> Result<DiskInfo, String> {
    Ok(DiskInfo { total: 1 << 30, free: 1 << 29 })
}
pub fn mem_info() -> Result<MemInfo, String> {
    Ok(MemInfo { total: 1 << 24, free: 1 << 23, avail: 1 << 23 })
}
pub fn cpu_num() -> Result<u32, String> {
    Ok(8)
}
pub fn loadavg() -> Result<LoadAvg, String> {
    Ok(LoadAvg { one: 0.5, five: 0.5, fifteen: 0.5 })
}
