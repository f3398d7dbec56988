//! Minimal parquet reader used to look at exported files independently of the importers under test.
use arrow::array::{Array, Float64Array, Int32Array, StringArray};
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use std::collections::BTreeMap;
use std::path::Path;

pub struct Table {
    pub rows: usize,
    pub num: BTreeMap<String, Vec<Option<f64>>>,
    pub txt: BTreeMap<String, Vec<Option<String>>>,
}

pub fn read(path: &Path) -> Result<Table, String> {
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let b = ParquetRecordBatchReaderBuilder::try_new(f).map_err(|e| e.to_string())?;
    let rd = b.build().map_err(|e| e.to_string())?;
    let mut t = Table { rows: 0, num: BTreeMap::new(), txt: BTreeMap::new() };
    for batch in rd {
        let batch = batch.map_err(|e| e.to_string())?;
        t.rows += batch.num_rows();
        for (i, f) in batch.schema().fields().iter().enumerate() {
            let c = batch.column(i);
            if let Some(a) = c.as_any().downcast_ref::<Float64Array>() {
                let v = t.num.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k)) } else { None });
                }
            } else if let Some(a) = c.as_any().downcast_ref::<Int32Array>() {
                let v = t.num.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k) as f64) } else { None });
                }
            } else if let Some(a) = c.as_any().downcast_ref::<StringArray>() {
                let v = t.txt.entry(f.name().clone()).or_default();
                for k in 0..a.len() {
                    v.push(if a.is_valid(k) { Some(a.value(k).to_string()) } else { None });
                }
            }
        }
    }
    Ok(t)
}
