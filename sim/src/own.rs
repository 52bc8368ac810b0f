//! A CPU type of the user's own: every figure of its timing table is different, and it exists with both
//! stack formats. On the two CPUs that come with the crate many figures are equal by accident.
use crate::timing::Tim;

/// Processing time of a vector.
pub fn vector_time(v: u8) -> usize {
    1000 + 7 * v as usize
}

#[cfg(feature = "own")]
#[derive(Clone, Copy, Debug, Default)]
pub struct Own<const SCC: bool>;

macro_rules! own {
    ($($up:ident $low:ident $v:literal;)*) => {
        pub static OWN: Tim = Tim { $($low: $v),* };
        #[cfg(feature = "own")]
        impl<const SCC: bool> m68000::CpuDetails for Own<SCC> {
            const STACK_FORMAT: m68000::StackFormat = if SCC { m68000::StackFormat::SCC68070 } else { m68000::StackFormat::MC68000 };
            fn vector_execution_time(vector: u8) -> usize {
                vector_time(vector)
            }
            $(const $up: usize = $v;)*
        }
    };
}

own! {
    VECTOR_RESET vector_reset 785;
    EA_ARI ea_ari 21;
    EA_ARIWPO ea_ariwpo 19;
    EA_ARIWPR ea_ariwpr 8;
    EA_ARIWD ea_ariwd 10;
    EA_ARIWI8 ea_ariwi8 11;
    EA_ABSSHORT ea_absshort 33;
    EA_ABSLONG ea_abslong 24;
    EA_PCIWD ea_pciwd 9;
    EA_PCIWI8 ea_pciwi8 18;
    EA_IMMEDIATE ea_immediate 15;
    ABCD_REG abcd_reg 772;
    ABCD_MEM abcd_mem 273;
    ADD_REG_BW add_reg_bw 262;
    ADD_REG_L add_reg_l 265;
    ADD_REG_L_RDIMM add_reg_l_rdimm 710;
    ADD_MEM_BW add_mem_bw 833;
    ADD_MEM_L add_mem_l 732;
    ADDA_WORD adda_word 314;
    ADDA_LONG adda_long 773;
    ADDA_LONG_RDIMM adda_long_rdimm 230;
    ADDI_REG_BW addi_reg_bw 529;
    ADDI_REG_L addi_reg_l 628;
    ADDI_MEM_BW addi_mem_bw 426;
    ADDI_MEM_L addi_mem_l 171;
    ADDQ_REG_BW addq_reg_bw 860;
    ADDQ_REG_L addq_reg_l 117;
    ADDQ_MEM_BW addq_mem_bw 310;
    ADDQ_MEM_L addq_mem_l 90;
    ADDX_REG_BW addx_reg_bw 888;
    ADDX_REG_L addx_reg_l 569;
    ADDX_MEM_BW addx_mem_bw 894;
    ADDX_MEM_L addx_mem_l 699;
    AND_REG_BW and_reg_bw 255;
    AND_REG_L and_reg_l 282;
    AND_REG_L_RDIMM and_reg_l_rdimm 492;
    AND_MEM_BW and_mem_bw 892;
    AND_MEM_L and_mem_l 883;
    ANDI_REG_BW andi_reg_bw 367;
    ANDI_REG_L andi_reg_l 374;
    ANDI_MEM_BW andi_mem_bw 777;
    ANDI_MEM_L andi_mem_l 239;
    ANDICCR andiccr 272;
    ANDISR andisr 61;
    ASM asm 448;
    ASR_COUNT asr_count 39;
    ASR_BW asr_bw 520;
    ASR_L asr_l 422;
    BCC_BRANCH bcc_branch 437;
    BCC_NO_BRANCH_BYTE bcc_no_branch_byte 433;
    BCC_NO_BRANCH_WORD bcc_no_branch_word 389;
    BCHG_DYN_REG bchg_dyn_reg 872;
    BCHG_DYN_MEM bchg_dyn_mem 413;
    BCHG_STA_REG bchg_sta_reg 525;
    BCHG_STA_MEM bchg_sta_mem 484;
    BCLR_DYN_REG bclr_dyn_reg 120;
    BCLR_DYN_MEM bclr_dyn_mem 775;
    BCLR_STA_REG bclr_sta_reg 555;
    BCLR_STA_MEM bclr_sta_mem 586;
    BRA_BYTE bra_byte 841;
    BRA_WORD bra_word 116;
    BSET_DYN_REG bset_dyn_reg 214;
    BSET_DYN_MEM bset_dyn_mem 396;
    BSET_STA_REG bset_sta_reg 169;
    BSET_STA_MEM bset_sta_mem 479;
    BSR_BYTE bsr_byte 52;
    BSR_WORD bsr_word 855;
    BTST_DYN_REG btst_dyn_reg 787;
    BTST_DYN_MEM btst_dyn_mem 647;
    BTST_STA_REG btst_sta_reg 840;
    BTST_STA_MEM btst_sta_mem 81;
    CHK_NO_TRAP chk_no_trap 553;
    CLR_REG_BW clr_reg_bw 593;
    CLR_REG_L clr_reg_l 241;
    CLR_MEM_BW clr_mem_bw 275;
    CLR_MEM_L clr_mem_l 397;
    CMP_BW cmp_bw 819;
    CMP_L cmp_l 161;
    CMPA cmpa 889;
    CMPI_REG_BW cmpi_reg_bw 217;
    CMPI_REG_L cmpi_reg_l 403;
    CMPI_MEM_BW cmpi_mem_bw 602;
    CMPI_MEM_L cmpi_mem_l 296;
    CMPM_BW cmpm_bw 501;
    CMPM_L cmpm_l 227;
    DBCC_TRUE dbcc_true 456;
    DBCC_FALSE_BRANCH dbcc_false_branch 716;
    DBCC_FALSE_NO_BRANCH dbcc_false_no_branch 616;
    DIVS divs 173;
    DIVU divu 328;
    EOR_REG_BW eor_reg_bw 444;
    EOR_REG_L eor_reg_l 570;
    EOR_MEM_BW eor_mem_bw 662;
    EOR_MEM_L eor_mem_l 270;
    EORI_REG_BW eori_reg_bw 768;
    EORI_REG_L eori_reg_l 76;
    EORI_MEM_BW eori_mem_bw 339;
    EORI_MEM_L eori_mem_l 191;
    EORICCR eoriccr 107;
    EORISR eorisr 204;
    EXG exg 268;
    EXT ext 163;
    JMP_ARI jmp_ari 259;
    JMP_ARIWD jmp_ariwd 139;
    JMP_ARIWI8 jmp_ariwi8 245;
    JMP_ABSSHORT jmp_absshort 866;
    JMP_ABSLONG jmp_abslong 233;
    JMP_PCIWD jmp_pciwd 603;
    JMP_PCIWI8 jmp_pciwi8 664;
    JSR_ARI jsr_ari 791;
    JSR_ARIWD jsr_ariwd 141;
    JSR_ARIWI8 jsr_ariwi8 539;
    JSR_ABSSHORT jsr_absshort 583;
    JSR_ABSLONG jsr_abslong 317;
    JSR_PCIWD jsr_pciwd 472;
    JSR_PCIWI8 jsr_pciwi8 703;
    LEA_ARI lea_ari 549;
    LEA_ARIWD lea_ariwd 709;
    LEA_ARIWI8 lea_ariwi8 756;
    LEA_ABSSHORT lea_absshort 747;
    LEA_ABSLONG lea_abslong 478;
    LEA_PCIWD lea_pciwd 428;
    LEA_PCIWI8 lea_pciwi8 372;
    LINK link 528;
    LSM lsm 778;
    LSR_COUNT lsr_count 27;
    LSR_BW lsr_bw 854;
    LSR_L lsr_l 364;
    MOVE_DST_ARIWPR move_dst_ariwpr 101;
    MOVE_OTHER move_other 295;
    MOVEA movea 234;
    MOVECCR moveccr 83;
    MOVEFSR_REG movefsr_reg 641;
    MOVEFSR_MEM movefsr_mem 95;
    MOVESR movesr 649;
    MOVEUSP moveusp 753;
    MOVEM_WORD movem_word 3;
    MOVEM_LONG movem_long 36;
    MOVEM_MTR movem_mtr 271;
    MOVEM_ARI movem_ari 845;
    MOVEM_ARIWPO movem_ariwpo 635;
    MOVEM_ARIWPR movem_ariwpr 166;
    MOVEM_ARIWD movem_ariwd 666;
    MOVEM_ARIWI8 movem_ariwi8 134;
    MOVEM_ABSSHORT movem_absshort 751;
    MOVEM_ABSLONG movem_abslong 763;
    MOVEM_PCIWD movem_pciwd 820;
    MOVEM_PCIWI8 movem_pciwi8 608;
    MOVEP_RTM_WORD movep_rtm_word 355;
    MOVEP_RTM_LONG movep_rtm_long 151;
    MOVEP_MTR_WORD movep_mtr_word 405;
    MOVEP_MTR_LONG movep_mtr_long 378;
    MOVEQ moveq 480;
    MULS muls 627;
    MULU mulu 138;
    NBCD_REG nbcd_reg 293;
    NBCD_MEM nbcd_mem 814;
    NEG_REG_BW neg_reg_bw 733;
    NEG_REG_L neg_reg_l 460;
    NEG_MEM_BW neg_mem_bw 292;
    NEG_MEM_L neg_mem_l 69;
    NEGX_REG_BW negx_reg_bw 861;
    NEGX_REG_L negx_reg_l 844;
    NEGX_MEM_BW negx_mem_bw 219;
    NEGX_MEM_L negx_mem_l 717;
    NOP nop 244;
    NOT_REG_BW not_reg_bw 867;
    NOT_REG_L not_reg_l 713;
    NOT_MEM_BW not_mem_bw 824;
    NOT_MEM_L not_mem_l 604;
    OR_REG_BW or_reg_bw 66;
    OR_REG_L or_reg_l 211;
    OR_REG_L_RDIMM or_reg_l_rdimm 852;
    OR_MEM_BW or_mem_bw 366;
    OR_MEM_L or_mem_l 289;
    ORI_REG_BW ori_reg_bw 530;
    ORI_REG_L ori_reg_l 658;
    ORI_MEM_BW ori_mem_bw 483;
    ORI_MEM_L ori_mem_l 521;
    ORICCR oriccr 424;
    ORISR orisr 754;
    PEA_ARI pea_ari 304;
    PEA_ARIWD pea_ariwd 660;
    PEA_ARIWI8 pea_ariwi8 279;
    PEA_ABSSHORT pea_absshort 109;
    PEA_ABSLONG pea_abslong 645;
    PEA_PCIWD pea_pciwd 554;
    PEA_PCIWI8 pea_pciwi8 170;
    RESET reset 89;
    ROM rom 75;
    ROR_COUNT ror_count 30;
    ROR_BW ror_bw 178;
    ROR_L ror_l 356;
    ROXM roxm 157;
    ROXR_COUNT roxr_count 23;
    ROXR_BW roxr_bw 598;
    ROXR_L roxr_l 390;
    RTE rte 183;
    RTR rtr 251;
    RTS rts 670;
    SBCD_REG sbcd_reg 516;
    SBCD_MEM sbcd_mem 152;
    SCC_REG_FALSE scc_reg_false 260;
    SCC_REG_TRUE scc_reg_true 124;
    SCC_MEM_FALSE scc_mem_false 382;
    SCC_MEM_TRUE scc_mem_true 868;
    STOP stop 623;
    SUB_REG_BW sub_reg_bw 821;
    SUB_REG_L sub_reg_l 246;
    SUB_REG_L_RDIMM sub_reg_l_rdimm 858;
    SUB_MEM_BW sub_mem_bw 642;
    SUB_MEM_L sub_mem_l 57;
    SUBA_WORD suba_word 526;
    SUBA_LONG suba_long 515;
    SUBA_LONG_RDIMM suba_long_rdimm 498;
    SUBI_REG_BW subi_reg_bw 562;
    SUBI_REG_L subi_reg_l 829;
    SUBI_MEM_BW subi_mem_bw 707;
    SUBI_MEM_L subi_mem_l 846;
    SUBQ_DREG_BW subq_dreg_bw 149;
    SUBQ_AREG_BW subq_areg_bw 432;
    SUBQ_REG_L subq_reg_l 358;
    SUBQ_MEM_BW subq_mem_bw 278;
    SUBQ_MEM_L subq_mem_l 632;
    SUBX_REG_BW subx_reg_bw 427;
    SUBX_REG_L subx_reg_l 347;
    SUBX_MEM_BW subx_mem_bw 341;
    SUBX_MEM_L subx_mem_l 307;
    SWAP swap 776;
    TAS_REG tas_reg 137;
    TAS_MEM tas_mem 571;
    TRAPV_NO_TRAP trapv_no_trap 612;
    TST_REG_BW tst_reg_bw 711;
    TST_REG_L tst_reg_l 336;
    TST_MEM_BW tst_mem_bw 267;
    TST_MEM_L tst_mem_l 590;
    UNLK unlk 78;
}
