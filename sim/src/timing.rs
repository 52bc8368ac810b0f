//! Reference instruction timings, as published for the two CPUs (frozen copy, see DESIGN.md).
#[allow(dead_code)]
#[derive(Clone, Copy)]
pub struct Tim {
    pub vector_reset: usize,
    pub ea_ari: usize,
    pub ea_ariwpo: usize,
    pub ea_ariwpr: usize,
    pub ea_ariwd: usize,
    pub ea_ariwi8: usize,
    pub ea_absshort: usize,
    pub ea_abslong: usize,
    pub ea_pciwd: usize,
    pub ea_pciwi8: usize,
    pub ea_immediate: usize,
    pub abcd_reg: usize,
    pub abcd_mem: usize,
    pub add_reg_bw: usize,
    pub add_reg_l: usize,
    pub add_reg_l_rdimm: usize,
    pub add_mem_bw: usize,
    pub add_mem_l: usize,
    pub adda_word: usize,
    pub adda_long: usize,
    pub adda_long_rdimm: usize,
    pub addi_reg_bw: usize,
    pub addi_reg_l: usize,
    pub addi_mem_bw: usize,
    pub addi_mem_l: usize,
    pub addq_reg_bw: usize,
    pub addq_reg_l: usize,
    pub addq_mem_bw: usize,
    pub addq_mem_l: usize,
    pub addx_reg_bw: usize,
    pub addx_reg_l: usize,
    pub addx_mem_bw: usize,
    pub addx_mem_l: usize,
    pub and_reg_bw: usize,
    pub and_reg_l: usize,
    pub and_reg_l_rdimm: usize,
    pub and_mem_bw: usize,
    pub and_mem_l: usize,
    pub andi_reg_bw: usize,
    pub andi_reg_l: usize,
    pub andi_mem_bw: usize,
    pub andi_mem_l: usize,
    pub andiccr: usize,
    pub andisr: usize,
    pub asm: usize,
    pub asr_count: usize,
    pub asr_bw: usize,
    pub asr_l: usize,
    pub bcc_branch: usize,
    pub bcc_no_branch_byte: usize,
    pub bcc_no_branch_word: usize,
    pub bchg_dyn_reg: usize,
    pub bchg_dyn_mem: usize,
    pub bchg_sta_reg: usize,
    pub bchg_sta_mem: usize,
    pub bclr_dyn_reg: usize,
    pub bclr_dyn_mem: usize,
    pub bclr_sta_reg: usize,
    pub bclr_sta_mem: usize,
    pub bra_byte: usize,
    pub bra_word: usize,
    pub bset_dyn_reg: usize,
    pub bset_dyn_mem: usize,
    pub bset_sta_reg: usize,
    pub bset_sta_mem: usize,
    pub bsr_byte: usize,
    pub bsr_word: usize,
    pub btst_dyn_reg: usize,
    pub btst_dyn_mem: usize,
    pub btst_sta_reg: usize,
    pub btst_sta_mem: usize,
    pub chk_no_trap: usize,
    pub clr_reg_bw: usize,
    pub clr_reg_l: usize,
    pub clr_mem_bw: usize,
    pub clr_mem_l: usize,
    pub cmp_bw: usize,
    pub cmp_l: usize,
    pub cmpa: usize,
    pub cmpi_reg_bw: usize,
    pub cmpi_reg_l: usize,
    pub cmpi_mem_bw: usize,
    pub cmpi_mem_l: usize,
    pub cmpm_bw: usize,
    pub cmpm_l: usize,
    pub dbcc_true: usize,
    pub dbcc_false_branch: usize,
    pub dbcc_false_no_branch: usize,
    pub divs: usize,
    pub divu: usize,
    pub eor_reg_bw: usize,
    pub eor_reg_l: usize,
    pub eor_mem_bw: usize,
    pub eor_mem_l: usize,
    pub eori_reg_bw: usize,
    pub eori_reg_l: usize,
    pub eori_mem_bw: usize,
    pub eori_mem_l: usize,
    pub eoriccr: usize,
    pub eorisr: usize,
    pub exg: usize,
    pub ext: usize,
    pub jmp_ari: usize,
    pub jmp_ariwd: usize,
    pub jmp_ariwi8: usize,
    pub jmp_absshort: usize,
    pub jmp_abslong: usize,
    pub jmp_pciwd: usize,
    pub jmp_pciwi8: usize,
    pub jsr_ari: usize,
    pub jsr_ariwd: usize,
    pub jsr_ariwi8: usize,
    pub jsr_absshort: usize,
    pub jsr_abslong: usize,
    pub jsr_pciwd: usize,
    pub jsr_pciwi8: usize,
    pub lea_ari: usize,
    pub lea_ariwd: usize,
    pub lea_ariwi8: usize,
    pub lea_absshort: usize,
    pub lea_abslong: usize,
    pub lea_pciwd: usize,
    pub lea_pciwi8: usize,
    pub link: usize,
    pub lsm: usize,
    pub lsr_count: usize,
    pub lsr_bw: usize,
    pub lsr_l: usize,
    pub move_dst_ariwpr: usize,
    pub move_other: usize,
    pub movea: usize,
    pub moveccr: usize,
    pub movefsr_reg: usize,
    pub movefsr_mem: usize,
    pub movesr: usize,
    pub moveusp: usize,
    pub movem_word: usize,
    pub movem_long: usize,
    pub movem_mtr: usize,
    pub movem_ari: usize,
    pub movem_ariwpo: usize,
    pub movem_ariwpr: usize,
    pub movem_ariwd: usize,
    pub movem_ariwi8: usize,
    pub movem_absshort: usize,
    pub movem_abslong: usize,
    pub movem_pciwd: usize,
    pub movem_pciwi8: usize,
    pub movep_rtm_word: usize,
    pub movep_rtm_long: usize,
    pub movep_mtr_word: usize,
    pub movep_mtr_long: usize,
    pub moveq: usize,
    pub muls: usize,
    pub mulu: usize,
    pub nbcd_reg: usize,
    pub nbcd_mem: usize,
    pub neg_reg_bw: usize,
    pub neg_reg_l: usize,
    pub neg_mem_bw: usize,
    pub neg_mem_l: usize,
    pub negx_reg_bw: usize,
    pub negx_reg_l: usize,
    pub negx_mem_bw: usize,
    pub negx_mem_l: usize,
    pub nop: usize,
    pub not_reg_bw: usize,
    pub not_reg_l: usize,
    pub not_mem_bw: usize,
    pub not_mem_l: usize,
    pub or_reg_bw: usize,
    pub or_reg_l: usize,
    pub or_reg_l_rdimm: usize,
    pub or_mem_bw: usize,
    pub or_mem_l: usize,
    pub ori_reg_bw: usize,
    pub ori_reg_l: usize,
    pub ori_mem_bw: usize,
    pub ori_mem_l: usize,
    pub oriccr: usize,
    pub orisr: usize,
    pub pea_ari: usize,
    pub pea_ariwd: usize,
    pub pea_ariwi8: usize,
    pub pea_absshort: usize,
    pub pea_abslong: usize,
    pub pea_pciwd: usize,
    pub pea_pciwi8: usize,
    pub reset: usize,
    pub rom: usize,
    pub ror_count: usize,
    pub ror_bw: usize,
    pub ror_l: usize,
    pub roxm: usize,
    pub roxr_count: usize,
    pub roxr_bw: usize,
    pub roxr_l: usize,
    pub rte: usize,
    pub rtr: usize,
    pub rts: usize,
    pub sbcd_reg: usize,
    pub sbcd_mem: usize,
    pub scc_reg_false: usize,
    pub scc_reg_true: usize,
    pub scc_mem_false: usize,
    pub scc_mem_true: usize,
    pub stop: usize,
    pub sub_reg_bw: usize,
    pub sub_reg_l: usize,
    pub sub_reg_l_rdimm: usize,
    pub sub_mem_bw: usize,
    pub sub_mem_l: usize,
    pub suba_word: usize,
    pub suba_long: usize,
    pub suba_long_rdimm: usize,
    pub subi_reg_bw: usize,
    pub subi_reg_l: usize,
    pub subi_mem_bw: usize,
    pub subi_mem_l: usize,
    pub subq_dreg_bw: usize,
    pub subq_areg_bw: usize,
    pub subq_reg_l: usize,
    pub subq_mem_bw: usize,
    pub subq_mem_l: usize,
    pub subx_reg_bw: usize,
    pub subx_reg_l: usize,
    pub subx_mem_bw: usize,
    pub subx_mem_l: usize,
    pub swap: usize,
    pub tas_reg: usize,
    pub tas_mem: usize,
    pub trapv_no_trap: usize,
    pub tst_reg_bw: usize,
    pub tst_reg_l: usize,
    pub tst_mem_bw: usize,
    pub tst_mem_l: usize,
    pub unlk: usize,
}
pub static MC68000: Tim = Tim {
    vector_reset: 40,
    ea_ari: 4,
    ea_ariwpo: 4,
    ea_ariwpr: 6,
    ea_ariwd: 8,
    ea_ariwi8: 10,
    ea_absshort: 8,
    ea_abslong: 12,
    ea_pciwd: 8,
    ea_pciwi8: 10,
    ea_immediate: 4,
    abcd_reg: 6,
    abcd_mem: 18,
    add_reg_bw: 4,
    add_reg_l: 6,
    add_reg_l_rdimm: 8,
    add_mem_bw: 8,
    add_mem_l: 12,
    adda_word: 8,
    adda_long: 6,
    adda_long_rdimm: 8,
    addi_reg_bw: 8,
    addi_reg_l: 16,
    addi_mem_bw: 12,
    addi_mem_l: 20,
    addq_reg_bw: 4,
    addq_reg_l: 8,
    addq_mem_bw: 8,
    addq_mem_l: 12,
    addx_reg_bw: 4,
    addx_reg_l: 8,
    addx_mem_bw: 18,
    addx_mem_l: 30,
    and_reg_bw: 4,
    and_reg_l: 6,
    and_reg_l_rdimm: 8,
    and_mem_bw: 8,
    and_mem_l: 12,
    andi_reg_bw: 8,
    andi_reg_l: 14,
    andi_mem_bw: 12,
    andi_mem_l: 20,
    andiccr: 20,
    andisr: 20,
    asm: 8,
    asr_count: 2,
    asr_bw: 6,
    asr_l: 8,
    bcc_branch: 10,
    bcc_no_branch_byte: 8,
    bcc_no_branch_word: 12,
    bchg_dyn_reg: 8,
    bchg_dyn_mem: 8,
    bchg_sta_reg: 12,
    bchg_sta_mem: 12,
    bclr_dyn_reg: 10,
    bclr_dyn_mem: 8,
    bclr_sta_reg: 14,
    bclr_sta_mem: 12,
    bra_byte: 10,
    bra_word: 10,
    bset_dyn_reg: 8,
    bset_dyn_mem: 8,
    bset_sta_reg: 12,
    bset_sta_mem: 12,
    bsr_byte: 18,
    bsr_word: 18,
    btst_dyn_reg: 6,
    btst_dyn_mem: 4,
    btst_sta_reg: 10,
    btst_sta_mem: 8,
    chk_no_trap: 10,
    clr_reg_bw: 4,
    clr_reg_l: 6,
    clr_mem_bw: 8,
    clr_mem_l: 12,
    cmp_bw: 4,
    cmp_l: 6,
    cmpa: 6,
    cmpi_reg_bw: 8,
    cmpi_reg_l: 14,
    cmpi_mem_bw: 8,
    cmpi_mem_l: 12,
    cmpm_bw: 12,
    cmpm_l: 20,
    dbcc_true: 12,
    dbcc_false_branch: 10,
    dbcc_false_no_branch: 14,
    divs: 158,
    divu: 140,
    eor_reg_bw: 4,
    eor_reg_l: 8,
    eor_mem_bw: 8,
    eor_mem_l: 12,
    eori_reg_bw: 8,
    eori_reg_l: 16,
    eori_mem_bw: 12,
    eori_mem_l: 20,
    eoriccr: 20,
    eorisr: 20,
    exg: 6,
    ext: 4,
    jmp_ari: 8,
    jmp_ariwd: 10,
    jmp_ariwi8: 14,
    jmp_absshort: 10,
    jmp_abslong: 12,
    jmp_pciwd: 10,
    jmp_pciwi8: 14,
    jsr_ari: 16,
    jsr_ariwd: 18,
    jsr_ariwi8: 22,
    jsr_absshort: 18,
    jsr_abslong: 20,
    jsr_pciwd: 18,
    jsr_pciwi8: 22,
    lea_ari: 4,
    lea_ariwd: 8,
    lea_ariwi8: 12,
    lea_absshort: 8,
    lea_abslong: 12,
    lea_pciwd: 8,
    lea_pciwi8: 12,
    link: 16,
    lsm: 8,
    lsr_count: 2,
    lsr_bw: 6,
    lsr_l: 8,
    move_dst_ariwpr: 2,
    move_other: 4,
    movea: 4,
    moveccr: 12,
    movefsr_reg: 6,
    movefsr_mem: 8,
    movesr: 12,
    moveusp: 4,
    movem_word: 4,
    movem_long: 8,
    movem_mtr: 4,
    movem_ari: 8,
    movem_ariwpo: 8,
    movem_ariwpr: 8,
    movem_ariwd: 12,
    movem_ariwi8: 14,
    movem_absshort: 12,
    movem_abslong: 16,
    movem_pciwd: 12,
    movem_pciwi8: 14,
    movep_rtm_word: 16,
    movep_rtm_long: 24,
    movep_mtr_word: 16,
    movep_mtr_long: 24,
    moveq: 4,
    muls: 70,
    mulu: 70,
    nbcd_reg: 6,
    nbcd_mem: 8,
    neg_reg_bw: 4,
    neg_reg_l: 6,
    neg_mem_bw: 8,
    neg_mem_l: 12,
    negx_reg_bw: 4,
    negx_reg_l: 6,
    negx_mem_bw: 8,
    negx_mem_l: 12,
    nop: 4,
    not_reg_bw: 4,
    not_reg_l: 6,
    not_mem_bw: 8,
    not_mem_l: 12,
    or_reg_bw: 4,
    or_reg_l: 6,
    or_reg_l_rdimm: 8,
    or_mem_bw: 8,
    or_mem_l: 12,
    ori_reg_bw: 8,
    ori_reg_l: 16,
    ori_mem_bw: 12,
    ori_mem_l: 20,
    oriccr: 20,
    orisr: 20,
    pea_ari: 12,
    pea_ariwd: 16,
    pea_ariwi8: 20,
    pea_absshort: 16,
    pea_abslong: 20,
    pea_pciwd: 16,
    pea_pciwi8: 20,
    reset: 132,
    rom: 8,
    ror_count: 2,
    ror_bw: 6,
    ror_l: 8,
    roxm: 8,
    roxr_count: 2,
    roxr_bw: 6,
    roxr_l: 8,
    rte: 20,
    rtr: 20,
    rts: 16,
    sbcd_reg: 6,
    sbcd_mem: 18,
    scc_reg_false: 4,
    scc_reg_true: 6,
    scc_mem_false: 8,
    scc_mem_true: 8,
    stop: 4,
    sub_reg_bw: 4,
    sub_reg_l: 6,
    sub_reg_l_rdimm: 8,
    sub_mem_bw: 8,
    sub_mem_l: 12,
    suba_word: 8,
    suba_long: 6,
    suba_long_rdimm: 8,
    subi_reg_bw: 8,
    subi_reg_l: 16,
    subi_mem_bw: 12,
    subi_mem_l: 20,
    subq_dreg_bw: 4,
    subq_areg_bw: 8,
    subq_reg_l: 8,
    subq_mem_bw: 8,
    subq_mem_l: 12,
    subx_reg_bw: 4,
    subx_reg_l: 8,
    subx_mem_bw: 18,
    subx_mem_l: 30,
    swap: 4,
    tas_reg: 4,
    tas_mem: 14,
    trapv_no_trap: 4,
    tst_reg_bw: 4,
    tst_reg_l: 4,
    tst_mem_bw: 4,
    tst_mem_l: 4,
    unlk: 12,
};
pub static SCC68070: Tim = Tim {
    vector_reset: 43,
    ea_ari: 4,
    ea_ariwpo: 4,
    ea_ariwpr: 7,
    ea_ariwd: 11,
    ea_ariwi8: 14,
    ea_absshort: 8,
    ea_abslong: 12,
    ea_pciwd: 11,
    ea_pciwi8: 14,
    ea_immediate: 4,
    abcd_reg: 10,
    abcd_mem: 31,
    add_reg_bw: 7,
    add_reg_l: 7,
    add_reg_l_rdimm: 7,
    add_mem_bw: 11,
    add_mem_l: 15,
    adda_word: 7,
    adda_long: 7,
    adda_long_rdimm: 7,
    addi_reg_bw: 14,
    addi_reg_l: 18,
    addi_mem_bw: 18,
    addi_mem_l: 26,
    addq_reg_bw: 7,
    addq_reg_l: 7,
    addq_mem_bw: 11,
    addq_mem_l: 15,
    addx_reg_bw: 7,
    addx_reg_l: 7,
    addx_mem_bw: 28,
    addx_mem_l: 40,
    and_reg_bw: 7,
    and_reg_l: 7,
    and_reg_l_rdimm: 7,
    and_mem_bw: 11,
    and_mem_l: 15,
    andi_reg_bw: 14,
    andi_reg_l: 18,
    andi_mem_bw: 18,
    andi_mem_l: 26,
    andiccr: 14,
    andisr: 14,
    asm: 14,
    asr_count: 3,
    asr_bw: 13,
    asr_l: 13,
    bcc_branch: 13,
    bcc_no_branch_byte: 14,
    bcc_no_branch_word: 14,
    bchg_dyn_reg: 10,
    bchg_dyn_mem: 14,
    bchg_sta_reg: 17,
    bchg_sta_mem: 21,
    bclr_dyn_reg: 10,
    bclr_dyn_mem: 14,
    bclr_sta_reg: 17,
    bclr_sta_mem: 21,
    bra_byte: 13,
    bra_word: 14,
    bset_dyn_reg: 10,
    bset_dyn_mem: 14,
    bset_sta_reg: 17,
    bset_sta_mem: 21,
    bsr_byte: 17,
    bsr_word: 22,
    btst_dyn_reg: 7,
    btst_dyn_mem: 7,
    btst_sta_reg: 14,
    btst_sta_mem: 14,
    chk_no_trap: 19,
    clr_reg_bw: 7,
    clr_reg_l: 7,
    clr_mem_bw: 7,
    clr_mem_l: 7,
    cmp_bw: 7,
    cmp_l: 7,
    cmpa: 7,
    cmpi_reg_bw: 14,
    cmpi_reg_l: 18,
    cmpi_mem_bw: 14,
    cmpi_mem_l: 18,
    cmpm_bw: 18,
    cmpm_l: 26,
    dbcc_true: 14,
    dbcc_false_branch: 17,
    dbcc_false_no_branch: 17,
    divs: 169,
    divu: 130,
    eor_reg_bw: 7,
    eor_reg_l: 7,
    eor_mem_bw: 11,
    eor_mem_l: 15,
    eori_reg_bw: 14,
    eori_reg_l: 18,
    eori_mem_bw: 18,
    eori_mem_l: 26,
    eoriccr: 14,
    eorisr: 14,
    exg: 13,
    ext: 7,
    jmp_ari: 7,
    jmp_ariwd: 14,
    jmp_ariwi8: 17,
    jmp_absshort: 14,
    jmp_abslong: 18,
    jmp_pciwd: 14,
    jmp_pciwi8: 17,
    jsr_ari: 18,
    jsr_ariwd: 25,
    jsr_ariwi8: 28,
    jsr_absshort: 25,
    jsr_abslong: 29,
    jsr_pciwd: 25,
    jsr_pciwi8: 28,
    lea_ari: 7,
    lea_ariwd: 14,
    lea_ariwi8: 17,
    lea_absshort: 14,
    lea_abslong: 18,
    lea_pciwd: 14,
    lea_pciwi8: 17,
    link: 25,
    lsm: 14,
    lsr_count: 3,
    lsr_bw: 13,
    lsr_l: 13,
    move_dst_ariwpr: 7,
    move_other: 7,
    movea: 7,
    moveccr: 10,
    movefsr_reg: 7,
    movefsr_mem: 11,
    movesr: 10,
    moveusp: 7,
    movem_word: 7,
    movem_long: 11,
    movem_mtr: 3,
    movem_ari: 23,
    movem_ariwpo: 23,
    movem_ariwpr: 23,
    movem_ariwd: 27,
    movem_ariwi8: 30,
    movem_absshort: 27,
    movem_abslong: 31,
    movem_pciwd: 27,
    movem_pciwi8: 30,
    movep_rtm_word: 25,
    movep_rtm_long: 39,
    movep_mtr_word: 22,
    movep_mtr_long: 36,
    moveq: 7,
    muls: 76,
    mulu: 76,
    nbcd_reg: 10,
    nbcd_mem: 14,
    neg_reg_bw: 7,
    neg_reg_l: 7,
    neg_mem_bw: 11,
    neg_mem_l: 15,
    negx_reg_bw: 7,
    negx_reg_l: 7,
    negx_mem_bw: 11,
    negx_mem_l: 15,
    nop: 7,
    not_reg_bw: 7,
    not_reg_l: 7,
    not_mem_bw: 11,
    not_mem_l: 15,
    or_reg_bw: 7,
    or_reg_l: 7,
    or_reg_l_rdimm: 7,
    or_mem_bw: 11,
    or_mem_l: 15,
    ori_reg_bw: 14,
    ori_reg_l: 18,
    ori_mem_bw: 18,
    ori_mem_l: 26,
    oriccr: 14,
    orisr: 14,
    pea_ari: 18,
    pea_ariwd: 25,
    pea_ariwi8: 28,
    pea_absshort: 25,
    pea_abslong: 29,
    pea_pciwd: 25,
    pea_pciwi8: 28,
    reset: 154,
    rom: 14,
    ror_count: 3,
    ror_bw: 13,
    ror_l: 13,
    roxm: 14,
    roxr_count: 3,
    roxr_bw: 13,
    roxr_l: 13,
    rte: 39,
    rtr: 22,
    rts: 15,
    sbcd_reg: 10,
    sbcd_mem: 31,
    scc_reg_false: 13,
    scc_reg_true: 13,
    scc_mem_false: 17,
    scc_mem_true: 14,
    stop: 13,
    sub_reg_bw: 7,
    sub_reg_l: 7,
    sub_reg_l_rdimm: 7,
    sub_mem_bw: 11,
    sub_mem_l: 15,
    suba_word: 7,
    suba_long: 7,
    suba_long_rdimm: 7,
    subi_reg_bw: 14,
    subi_reg_l: 18,
    subi_mem_bw: 18,
    subi_mem_l: 26,
    subq_dreg_bw: 7,
    subq_areg_bw: 7,
    subq_reg_l: 7,
    subq_mem_bw: 11,
    subq_mem_l: 15,
    subx_reg_bw: 7,
    subx_reg_l: 7,
    subx_mem_bw: 28,
    subx_mem_l: 40,
    swap: 7,
    tas_reg: 10,
    tas_mem: 11,
    trapv_no_trap: 10,
    tst_reg_bw: 7,
    tst_reg_l: 7,
    tst_mem_bw: 7,
    tst_mem_l: 7,
    unlk: 15,
};

/// Processing time of a vector, None where nothing is published.
pub fn vector_time(scc: bool, v: u8) -> Option<usize> {
    Some(if scc {
        match v { 0 => 43, 2 | 3 => 158, 4 => 55, 5 | 6 => 64, 7 | 8 | 9 => 55, 24..=31 => 65, 32..=47 => 52, _ => return None }
    } else {
        match v { 0 => 40, 2 | 3 => 50, 4 => 34, 5 => 38, 6 => 40, 7 | 8 | 9 => 34, 24..=31 => 44, 32..=47 => 34, _ => return None }
    })
}
