//! Tables for every selection of capabilities (written by a script: the names say which).
#![allow(non_camel_case_types)]
use dync::traits::*;
use dync::*;

#[dync_trait]
pub trait G_ {}
impl<X> G_ for X {}
#[dync_trait]
pub trait G_C: Clone {}
impl<X: Clone> G_C for X {}
#[dync_trait]
pub trait G_P: PartialEq {}
impl<X: PartialEq> G_P for X {}
#[dync_trait]
pub trait G_H: std::hash::Hash {}
impl<X: std::hash::Hash> G_H for X {}
#[dync_trait]
pub trait G_D: std::fmt::Debug {}
impl<X: std::fmt::Debug> G_D for X {}
#[dync_trait]
pub trait G_S: Send {}
impl<X: Send> G_S for X {}
#[dync_trait]
pub trait G_Y: Sync {}
impl<X: Sync> G_Y for X {}
#[dync_trait]
pub trait G_CP: Clone + PartialEq {}
impl<X: Clone + PartialEq> G_CP for X {}
#[dync_trait]
pub trait G_CH: Clone + std::hash::Hash {}
impl<X: Clone + std::hash::Hash> G_CH for X {}
#[dync_trait]
pub trait G_CD: std::fmt::Debug + Clone {}
impl<X: std::fmt::Debug + Clone> G_CD for X {}
#[dync_trait]
pub trait G_CS: Clone + Send {}
impl<X: Clone + Send> G_CS for X {}
#[dync_trait]
pub trait G_CY: Sync + Clone {}
impl<X: Sync + Clone> G_CY for X {}
#[dync_trait]
pub trait G_PE: PartialEq + Eq {}
impl<X: PartialEq + Eq> G_PE for X {}
#[dync_trait]
pub trait G_PH: std::hash::Hash + PartialEq {}
impl<X: std::hash::Hash + PartialEq> G_PH for X {}
#[dync_trait]
pub trait G_PD: PartialEq + std::fmt::Debug {}
impl<X: PartialEq + std::fmt::Debug> G_PD for X {}
#[dync_trait]
pub trait G_PS: Send + PartialEq {}
impl<X: Send + PartialEq> G_PS for X {}
#[dync_trait]
pub trait G_PY: PartialEq + Sync {}
impl<X: PartialEq + Sync> G_PY for X {}
#[dync_trait]
pub trait G_HD: std::hash::Hash + std::fmt::Debug {}
impl<X: std::hash::Hash + std::fmt::Debug> G_HD for X {}
#[dync_trait]
pub trait G_HS: Send + std::hash::Hash {}
impl<X: Send + std::hash::Hash> G_HS for X {}
#[dync_trait]
pub trait G_HY: std::hash::Hash + Sync {}
impl<X: std::hash::Hash + Sync> G_HY for X {}
#[dync_trait]
pub trait G_DS: std::fmt::Debug + Send {}
impl<X: std::fmt::Debug + Send> G_DS for X {}
#[dync_trait]
pub trait G_DY: Sync + std::fmt::Debug {}
impl<X: Sync + std::fmt::Debug> G_DY for X {}
#[dync_trait]
pub trait G_SY: Send + Sync {}
impl<X: Send + Sync> G_SY for X {}
#[dync_trait]
pub trait G_CPE: Eq + PartialEq + Clone {}
impl<X: Eq + PartialEq + Clone> G_CPE for X {}
#[dync_trait]
pub trait G_CPH: PartialEq + std::hash::Hash + Clone {}
impl<X: PartialEq + std::hash::Hash + Clone> G_CPH for X {}
#[dync_trait]
pub trait G_CPD: std::fmt::Debug + PartialEq + Clone {}
impl<X: std::fmt::Debug + PartialEq + Clone> G_CPD for X {}
#[dync_trait]
pub trait G_CPS: PartialEq + Send + Clone {}
impl<X: PartialEq + Send + Clone> G_CPS for X {}
#[dync_trait]
pub trait G_CPY: Sync + PartialEq + Clone {}
impl<X: Sync + PartialEq + Clone> G_CPY for X {}
#[dync_trait]
pub trait G_CHD: std::fmt::Debug + std::hash::Hash + Clone {}
impl<X: std::fmt::Debug + std::hash::Hash + Clone> G_CHD for X {}
#[dync_trait]
pub trait G_CHS: std::hash::Hash + Send + Clone {}
impl<X: std::hash::Hash + Send + Clone> G_CHS for X {}
#[dync_trait]
pub trait G_CHY: Sync + std::hash::Hash + Clone {}
impl<X: Sync + std::hash::Hash + Clone> G_CHY for X {}
#[dync_trait]
pub trait G_CDS: Send + std::fmt::Debug + Clone {}
impl<X: Send + std::fmt::Debug + Clone> G_CDS for X {}
#[dync_trait]
pub trait G_CDY: Clone + std::fmt::Debug + Sync {}
impl<X: Clone + std::fmt::Debug + Sync> G_CDY for X {}
#[dync_trait]
pub trait G_CSY: Sync + Send + Clone {}
impl<X: Sync + Send + Clone> G_CSY for X {}
#[dync_trait]
pub trait G_PEH: Eq + std::hash::Hash + PartialEq {}
impl<X: Eq + std::hash::Hash + PartialEq> G_PEH for X {}
#[dync_trait]
pub trait G_PED: std::fmt::Debug + Eq + PartialEq {}
impl<X: std::fmt::Debug + Eq + PartialEq> G_PED for X {}
#[dync_trait]
pub trait G_PES: Eq + Send + PartialEq {}
impl<X: Eq + Send + PartialEq> G_PES for X {}
#[dync_trait]
pub trait G_PEY: Sync + Eq + PartialEq {}
impl<X: Sync + Eq + PartialEq> G_PEY for X {}
#[dync_trait]
pub trait G_PHD: std::hash::Hash + std::fmt::Debug + PartialEq {}
impl<X: std::hash::Hash + std::fmt::Debug + PartialEq> G_PHD for X {}
#[dync_trait]
pub trait G_PHS: PartialEq + std::hash::Hash + Send {}
impl<X: PartialEq + std::hash::Hash + Send> G_PHS for X {}
#[dync_trait]
pub trait G_PHY: std::hash::Hash + Sync + PartialEq {}
impl<X: std::hash::Hash + Sync + PartialEq> G_PHY for X {}
#[dync_trait]
pub trait G_PDS: std::fmt::Debug + Send + PartialEq {}
impl<X: std::fmt::Debug + Send + PartialEq> G_PDS for X {}
#[dync_trait]
pub trait G_PDY: Sync + std::fmt::Debug + PartialEq {}
impl<X: Sync + std::fmt::Debug + PartialEq> G_PDY for X {}
#[dync_trait]
pub trait G_PSY: Send + Sync + PartialEq {}
impl<X: Send + Sync + PartialEq> G_PSY for X {}
#[dync_trait]
pub trait G_HDS: std::fmt::Debug + Send + std::hash::Hash {}
impl<X: std::fmt::Debug + Send + std::hash::Hash> G_HDS for X {}
#[dync_trait]
pub trait G_HDY: Sync + std::fmt::Debug + std::hash::Hash {}
impl<X: Sync + std::fmt::Debug + std::hash::Hash> G_HDY for X {}
#[dync_trait]
pub trait G_HSY: Send + Sync + std::hash::Hash {}
impl<X: Send + Sync + std::hash::Hash> G_HSY for X {}
#[dync_trait]
pub trait G_DSY: Sync + Send + std::fmt::Debug {}
impl<X: Sync + Send + std::fmt::Debug> G_DSY for X {}
#[dync_trait]
pub trait G_CPEH: Clone + PartialEq + Eq + std::hash::Hash {}
impl<X: Clone + PartialEq + Eq + std::hash::Hash> G_CPEH for X {}
#[dync_trait]
pub trait G_CPED: PartialEq + Eq + std::fmt::Debug + Clone {}
impl<X: PartialEq + Eq + std::fmt::Debug + Clone> G_CPED for X {}
#[dync_trait]
pub trait G_CPES: Clone + PartialEq + Eq + Send {}
impl<X: Clone + PartialEq + Eq + Send> G_CPES for X {}
#[dync_trait]
pub trait G_CPEY: PartialEq + Eq + Sync + Clone {}
impl<X: PartialEq + Eq + Sync + Clone> G_CPEY for X {}
#[dync_trait]
pub trait G_CPHD: Clone + PartialEq + std::hash::Hash + std::fmt::Debug {}
impl<X: Clone + PartialEq + std::hash::Hash + std::fmt::Debug> G_CPHD for X {}
#[dync_trait]
pub trait G_CPHS: Send + std::hash::Hash + PartialEq + Clone {}
impl<X: Send + std::hash::Hash + PartialEq + Clone> G_CPHS for X {}
#[dync_trait]
pub trait G_CPHY: Clone + PartialEq + std::hash::Hash + Sync {}
impl<X: Clone + PartialEq + std::hash::Hash + Sync> G_CPHY for X {}
#[dync_trait]
pub trait G_CPDS: Clone + PartialEq + std::fmt::Debug + Send {}
impl<X: Clone + PartialEq + std::fmt::Debug + Send> G_CPDS for X {}
#[dync_trait]
pub trait G_CPDY: PartialEq + std::fmt::Debug + Sync + Clone {}
impl<X: PartialEq + std::fmt::Debug + Sync + Clone> G_CPDY for X {}
#[dync_trait]
pub trait G_CPSY: Clone + PartialEq + Send + Sync {}
impl<X: Clone + PartialEq + Send + Sync> G_CPSY for X {}
#[dync_trait]
pub trait G_CHDS: Clone + std::hash::Hash + std::fmt::Debug + Send {}
impl<X: Clone + std::hash::Hash + std::fmt::Debug + Send> G_CHDS for X {}
#[dync_trait]
pub trait G_CHDY: std::hash::Hash + std::fmt::Debug + Sync + Clone {}
impl<X: std::hash::Hash + std::fmt::Debug + Sync + Clone> G_CHDY for X {}
#[dync_trait]
pub trait G_CHSY: Clone + std::hash::Hash + Send + Sync {}
impl<X: Clone + std::hash::Hash + Send + Sync> G_CHSY for X {}
#[dync_trait]
pub trait G_CDSY: std::fmt::Debug + Send + Sync + Clone {}
impl<X: std::fmt::Debug + Send + Sync + Clone> G_CDSY for X {}
#[dync_trait]
pub trait G_PEHD: PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<X: PartialEq + Eq + std::hash::Hash + std::fmt::Debug> G_PEHD for X {}
#[dync_trait]
pub trait G_PEHS: Send + std::hash::Hash + Eq + PartialEq {}
impl<X: Send + std::hash::Hash + Eq + PartialEq> G_PEHS for X {}
#[dync_trait]
pub trait G_PEHY: PartialEq + Eq + std::hash::Hash + Sync {}
impl<X: PartialEq + Eq + std::hash::Hash + Sync> G_PEHY for X {}
#[dync_trait]
pub trait G_PEDS: PartialEq + Eq + std::fmt::Debug + Send {}
impl<X: PartialEq + Eq + std::fmt::Debug + Send> G_PEDS for X {}
#[dync_trait]
pub trait G_PEDY: Eq + std::fmt::Debug + Sync + PartialEq {}
impl<X: Eq + std::fmt::Debug + Sync + PartialEq> G_PEDY for X {}
#[dync_trait]
pub trait G_PESY: PartialEq + Eq + Send + Sync {}
impl<X: PartialEq + Eq + Send + Sync> G_PESY for X {}
#[dync_trait]
pub trait G_PHDS: Send + std::fmt::Debug + std::hash::Hash + PartialEq {}
impl<X: Send + std::fmt::Debug + std::hash::Hash + PartialEq> G_PHDS for X {}
#[dync_trait]
pub trait G_PHDY: PartialEq + std::hash::Hash + std::fmt::Debug + Sync {}
impl<X: PartialEq + std::hash::Hash + std::fmt::Debug + Sync> G_PHDY for X {}
#[dync_trait]
pub trait G_PHSY: Sync + Send + std::hash::Hash + PartialEq {}
impl<X: Sync + Send + std::hash::Hash + PartialEq> G_PHSY for X {}
#[dync_trait]
pub trait G_PDSY: PartialEq + std::fmt::Debug + Send + Sync {}
impl<X: PartialEq + std::fmt::Debug + Send + Sync> G_PDSY for X {}
#[dync_trait]
pub trait G_HDSY: std::hash::Hash + std::fmt::Debug + Send + Sync {}
impl<X: std::hash::Hash + std::fmt::Debug + Send + Sync> G_HDSY for X {}
#[dync_trait]
pub trait G_CPEHD: std::fmt::Debug + std::hash::Hash + Eq + PartialEq + Clone {}
impl<X: std::fmt::Debug + std::hash::Hash + Eq + PartialEq + Clone> G_CPEHD for X {}
#[dync_trait]
pub trait G_CPEHS: PartialEq + Eq + std::hash::Hash + Send + Clone {}
impl<X: PartialEq + Eq + std::hash::Hash + Send + Clone> G_CPEHS for X {}
#[dync_trait]
pub trait G_CPEHY: Sync + std::hash::Hash + Eq + PartialEq + Clone {}
impl<X: Sync + std::hash::Hash + Eq + PartialEq + Clone> G_CPEHY for X {}
#[dync_trait]
pub trait G_CPEDS: Send + std::fmt::Debug + Eq + PartialEq + Clone {}
impl<X: Send + std::fmt::Debug + Eq + PartialEq + Clone> G_CPEDS for X {}
#[dync_trait]
pub trait G_CPEDY: Clone + PartialEq + Eq + std::fmt::Debug + Sync {}
impl<X: Clone + PartialEq + Eq + std::fmt::Debug + Sync> G_CPEDY for X {}
#[dync_trait]
pub trait G_CPESY: Sync + Send + Eq + PartialEq + Clone {}
impl<X: Sync + Send + Eq + PartialEq + Clone> G_CPESY for X {}
#[dync_trait]
pub trait G_CPHDS: PartialEq + std::hash::Hash + std::fmt::Debug + Send + Clone {}
impl<X: PartialEq + std::hash::Hash + std::fmt::Debug + Send + Clone> G_CPHDS for X {}
#[dync_trait]
pub trait G_CPHDY: Sync + std::fmt::Debug + std::hash::Hash + PartialEq + Clone {}
impl<X: Sync + std::fmt::Debug + std::hash::Hash + PartialEq + Clone> G_CPHDY for X {}
#[dync_trait]
pub trait G_CPHSY: PartialEq + std::hash::Hash + Send + Sync + Clone {}
impl<X: PartialEq + std::hash::Hash + Send + Sync + Clone> G_CPHSY for X {}
#[dync_trait]
pub trait G_CPDSY: Sync + Send + std::fmt::Debug + PartialEq + Clone {}
impl<X: Sync + Send + std::fmt::Debug + PartialEq + Clone> G_CPDSY for X {}
#[dync_trait]
pub trait G_CHDSY: Sync + Send + std::fmt::Debug + std::hash::Hash + Clone {}
impl<X: Sync + Send + std::fmt::Debug + std::hash::Hash + Clone> G_CHDSY for X {}
#[dync_trait]
pub trait G_PEHDS: Eq + std::hash::Hash + std::fmt::Debug + Send + PartialEq {}
impl<X: Eq + std::hash::Hash + std::fmt::Debug + Send + PartialEq> G_PEHDS for X {}
#[dync_trait]
pub trait G_PEHDY: Sync + std::fmt::Debug + std::hash::Hash + Eq + PartialEq {}
impl<X: Sync + std::fmt::Debug + std::hash::Hash + Eq + PartialEq> G_PEHDY for X {}
#[dync_trait]
pub trait G_PEHSY: Eq + std::hash::Hash + Send + Sync + PartialEq {}
impl<X: Eq + std::hash::Hash + Send + Sync + PartialEq> G_PEHSY for X {}
#[dync_trait]
pub trait G_PEDSY: Sync + Send + std::fmt::Debug + Eq + PartialEq {}
impl<X: Sync + Send + std::fmt::Debug + Eq + PartialEq> G_PEDSY for X {}
#[dync_trait]
pub trait G_PHDSY: std::hash::Hash + std::fmt::Debug + Send + Sync + PartialEq {}
impl<X: std::hash::Hash + std::fmt::Debug + Send + Sync + PartialEq> G_PHDSY for X {}
#[dync_trait]
pub trait G_CPEHDS: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send {}
impl<X: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send> G_CPEHDS for X {}
#[dync_trait]
pub trait G_CPEHDY: PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Sync + Clone {}
impl<X: PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Sync + Clone> G_CPEHDY for X {}
#[dync_trait]
pub trait G_CPEHSY: Clone + PartialEq + Eq + std::hash::Hash + Send + Sync {}
impl<X: Clone + PartialEq + Eq + std::hash::Hash + Send + Sync> G_CPEHSY for X {}
#[dync_trait]
pub trait G_CPEDSY: PartialEq + Eq + std::fmt::Debug + Send + Sync + Clone {}
impl<X: PartialEq + Eq + std::fmt::Debug + Send + Sync + Clone> G_CPEDSY for X {}
#[dync_trait]
pub trait G_CPHDSY: Clone + PartialEq + std::hash::Hash + std::fmt::Debug + Send + Sync {}
impl<X: Clone + PartialEq + std::hash::Hash + std::fmt::Debug + Send + Sync> G_CPHDSY for X {}
#[dync_trait]
pub trait G_PEHDSY: PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync {}
impl<X: PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync> G_PEHDSY for X {}
#[dync_trait]
pub trait G_CPEHDSY: Sync + Send + std::fmt::Debug + std::hash::Hash + Eq + PartialEq + Clone {}
impl<X: Sync + Send + std::fmt::Debug + std::hash::Hash + Eq + PartialEq + Clone> G_CPEHDSY for X {}
/// Calls a macro with every (table, trait of the table, capabilities).
#[macro_export]
macro_rules! generated_tables { ($m:ident) => { $m! {
    G_VTable, HasG_, "";
    G_CVTable, HasG_C, "C";
    G_PVTable, HasG_P, "P";
    G_HVTable, HasG_H, "H";
    G_DVTable, HasG_D, "D";
    G_SVTable, HasG_S, "S";
    G_YVTable, HasG_Y, "Y";
    G_CPVTable, HasG_CP, "CP";
    G_CHVTable, HasG_CH, "CH";
    G_CDVTable, HasG_CD, "CD";
    G_CSVTable, HasG_CS, "CS";
    G_CYVTable, HasG_CY, "CY";
    G_PEVTable, HasG_PE, "PE";
    G_PHVTable, HasG_PH, "PH";
    G_PDVTable, HasG_PD, "PD";
    G_PSVTable, HasG_PS, "PS";
    G_PYVTable, HasG_PY, "PY";
    G_HDVTable, HasG_HD, "HD";
    G_HSVTable, HasG_HS, "HS";
    G_HYVTable, HasG_HY, "HY";
    G_DSVTable, HasG_DS, "DS";
    G_DYVTable, HasG_DY, "DY";
    G_SYVTable, HasG_SY, "SY";
    G_CPEVTable, HasG_CPE, "CPE";
    G_CPHVTable, HasG_CPH, "CPH";
    G_CPDVTable, HasG_CPD, "CPD";
    G_CPSVTable, HasG_CPS, "CPS";
    G_CPYVTable, HasG_CPY, "CPY";
    G_CHDVTable, HasG_CHD, "CHD";
    G_CHSVTable, HasG_CHS, "CHS";
    G_CHYVTable, HasG_CHY, "CHY";
    G_CDSVTable, HasG_CDS, "CDS";
    G_CDYVTable, HasG_CDY, "CDY";
    G_CSYVTable, HasG_CSY, "CSY";
    G_PEHVTable, HasG_PEH, "PEH";
    G_PEDVTable, HasG_PED, "PED";
    G_PESVTable, HasG_PES, "PES";
    G_PEYVTable, HasG_PEY, "PEY";
    G_PHDVTable, HasG_PHD, "PHD";
    G_PHSVTable, HasG_PHS, "PHS";
    G_PHYVTable, HasG_PHY, "PHY";
    G_PDSVTable, HasG_PDS, "PDS";
    G_PDYVTable, HasG_PDY, "PDY";
    G_PSYVTable, HasG_PSY, "PSY";
    G_HDSVTable, HasG_HDS, "HDS";
    G_HDYVTable, HasG_HDY, "HDY";
    G_HSYVTable, HasG_HSY, "HSY";
    G_DSYVTable, HasG_DSY, "DSY";
    G_CPEHVTable, HasG_CPEH, "CPEH";
    G_CPEDVTable, HasG_CPED, "CPED";
    G_CPESVTable, HasG_CPES, "CPES";
    G_CPEYVTable, HasG_CPEY, "CPEY";
    G_CPHDVTable, HasG_CPHD, "CPHD";
    G_CPHSVTable, HasG_CPHS, "CPHS";
    G_CPHYVTable, HasG_CPHY, "CPHY";
    G_CPDSVTable, HasG_CPDS, "CPDS";
    G_CPDYVTable, HasG_CPDY, "CPDY";
    G_CPSYVTable, HasG_CPSY, "CPSY";
    G_CHDSVTable, HasG_CHDS, "CHDS";
    G_CHDYVTable, HasG_CHDY, "CHDY";
    G_CHSYVTable, HasG_CHSY, "CHSY";
    G_CDSYVTable, HasG_CDSY, "CDSY";
    G_PEHDVTable, HasG_PEHD, "PEHD";
    G_PEHSVTable, HasG_PEHS, "PEHS";
    G_PEHYVTable, HasG_PEHY, "PEHY";
    G_PEDSVTable, HasG_PEDS, "PEDS";
    G_PEDYVTable, HasG_PEDY, "PEDY";
    G_PESYVTable, HasG_PESY, "PESY";
    G_PHDSVTable, HasG_PHDS, "PHDS";
    G_PHDYVTable, HasG_PHDY, "PHDY";
    G_PHSYVTable, HasG_PHSY, "PHSY";
    G_PDSYVTable, HasG_PDSY, "PDSY";
    G_HDSYVTable, HasG_HDSY, "HDSY";
    G_CPEHDVTable, HasG_CPEHD, "CPEHD";
    G_CPEHSVTable, HasG_CPEHS, "CPEHS";
    G_CPEHYVTable, HasG_CPEHY, "CPEHY";
    G_CPEDSVTable, HasG_CPEDS, "CPEDS";
    G_CPEDYVTable, HasG_CPEDY, "CPEDY";
    G_CPESYVTable, HasG_CPESY, "CPESY";
    G_CPHDSVTable, HasG_CPHDS, "CPHDS";
    G_CPHDYVTable, HasG_CPHDY, "CPHDY";
    G_CPHSYVTable, HasG_CPHSY, "CPHSY";
    G_CPDSYVTable, HasG_CPDSY, "CPDSY";
    G_CHDSYVTable, HasG_CHDSY, "CHDSY";
    G_PEHDSVTable, HasG_PEHDS, "PEHDS";
    G_PEHDYVTable, HasG_PEHDY, "PEHDY";
    G_PEHSYVTable, HasG_PEHSY, "PEHSY";
    G_PEDSYVTable, HasG_PEDSY, "PEDSY";
    G_PHDSYVTable, HasG_PHDSY, "PHDSY";
    G_CPEHDSVTable, HasG_CPEHDS, "CPEHDS";
    G_CPEHDYVTable, HasG_CPEHDY, "CPEHDY";
    G_CPEHSYVTable, HasG_CPEHSY, "CPEHSY";
    G_CPEDSYVTable, HasG_CPEDSY, "CPEDSY";
    G_CPHDSYVTable, HasG_CPHDSY, "CPHDSY";
    G_PEHDSYVTable, HasG_PEHDSY, "PEHDSY";
    G_CPEHDSYVTable, HasG_CPEHDSY, "CPEHDSY";
} } }
